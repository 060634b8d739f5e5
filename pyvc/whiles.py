"""Contracts for `while` loops: cut the loop at its head with an invariant.

The loop body of the real source is executed once from a havocked state that
satisfies the invariant (every name the body assigns is replaced by a fresh
value).  The contract object then judges the state after the body:

    contract(w)    w: WhileState (values before and after the body, at the
                   generic array position) -> goals through w.V, and the names
                   whose value is replaced by an abstract one after the loop.

Obligations recorded here: the test holds at entry, the sign invariants are
preserved by the body, and the iteration counter grows and is bounded by the
test (termination)."""
from . import terms as tm
from .ctx import cur, Unsupported, PathEnd, Dom
from .sym import Num, B, Arr, to_num, is_special, ABSENT
from .loops import Snap
import numpy as _np


class LoopBack(PathEnd):
    """end of a path at the head of an invariant-cut loop (its goals count)"""


class WhileState:
    pass


def elem(v):
    if isinstance(v, Arr):
        v = v.elem
    if isinstance(v, (bool, B)):
        return None
    if isinstance(v, (int, float, Num)):
        return to_num(v).t
    return None


def make_hook(contract, V):
    def hook(interp, st, fr):
        return run(contract, V, interp, st, fr)
    return hook


def run(contract, V, interp, st, fr):
    from .interp import assigned_names, Poison, _Break, _Continue
    c = cur()
    if st.orelse:
        raise Unsupported('while/else')
    names = assigned_names(st.body)
    S0 = Snap(fr)
    pre = {n: fr.locals[n] for n in names if n in fr.locals}
    V.loopno = getattr(V, 'loopno', 0) + 1
    tag = 'loop'
    if any(elem(v) is ABSENT for v in pre.values()):
        # the generic position is not among those the loop works on
        interp.block(st.body, fr)
        return True
    # --- entry
    if not interp.truth(interp.eval(st.test, fr)):
        V._refute(tag + ': entered', 'the loop test is false at entry')
        raise LoopBack()
    V._g(tag + ': entered', 'proved', 'exact')
    kinds = {}
    fresh0 = c.fresh
    entry = tuple(c.taken)
    for n, v in pre.items():
        t = elem(v)
        if t is None or is_special(t):
            raise Unsupported('value of %s carried by a while loop' % n)
        s = c.sign(t) if not isinstance(v, (int, float)) else None
        kinds[n] = 'pos' if s == {1} else ('nonneg' if s is not None and -1 not in s else 'real')
        if isinstance(v, int) and not isinstance(v, bool):
            kinds[n] = 'int'
    for attempt in range(3):
        S0.restore()
        w = WhileState()
        w.kind = w.out = None
        w.V, w.c, w.interp = V, c, interp
        w.v0, w.v, w.post, w.names = {}, {}, {}, sorted(names)
        seenbuf = {}
        for n, v in pre.items():
            t = elem(v)
            w.v0[n] = t
            if kinds[n] == 'int':
                x = c.new_var('it', Dom('int', lo=v))
                fr.locals[n] = Num(x, 'i')
            else:
                x = c.new_var('w_' + n, Dom(kinds[n]))
                if isinstance(v, Arr):
                    c.pvars.add(x.args[0])
                    a = Arr(v.space, Num(x, 'f'), 'f')
                    a.buf.owner = v.buf.owner
                    fr.locals[n] = a
                    seenbuf.setdefault(id(v.buf), []).append((n, a))
                elif isinstance(v, _np.ndarray):
                    raise Unsupported('array carried by a while loop')
                else:
                    fr.locals[n] = Num(x, 'f')
            w.v[n] = x
        base = Snap(fr)
        hav = {n: (fr.locals[n], fr.locals[n].buf.elem) for n in pre if isinstance(fr.locals[n], Arr)}
        lazy = c.lazyabs
        c.lazyabs = True
        try:
            interp.block(st.body, fr)
        except (_Break, _Continue):
            raise Unsupported('break/continue in an invariant-cut loop')
        finally:
            c.lazyabs = lazy
        for o, v in base.objs:
            if hasattr(o, 'dirty') and o.elem is not v[0]:
                nm = [n for n, (a, e) in hav.items() if a.buf is o]
                if not nm:
                    raise Unsupported('array store in an invariant-cut loop')
                grp = [g for g in seenbuf.values() if any(x == nm[0] for x, a in g)]
                if grp and len(grp[0]) > 1:
                    raise Unsupported('in-place update of an aliased array in a while loop')
            elif isinstance(o, _np.ndarray) and o.dtype == object and any(a is not b for a, b in zip(o.ravel(), v.ravel())):
                raise Unsupported('array store in an invariant-cut loop')
            elif isinstance(o, (list, dict, set)) and o != v:
                raise Unsupported('container modified in an invariant-cut loop')
        for n in names:
            if n in fr.locals and not isinstance(fr.locals[n], Poison):
                t = elem(fr.locals[n])
                if t is not None:
                    w.post[n] = t
        weak = []
        for n in pre:
            if kinds[n] in ('pos', 'nonneg'):
                t = w.post.get(n)
                ok = False
                if t is not None and not is_special(t):
                    s = c.synsign(t)
                    ok = s == {1} or (kinds[n] == 'nonneg' and s is not None and -1 not in s)
                if not ok:
                    weak.append(n)
            elif kinds[n] == 'int':
                x = fr.locals.get(n)
                ok = isinstance(x, int) or isinstance(x, Num) and x.dt == 'i'
                if ok:
                    sg = c.synsign(tm.add(to_num(x).t, tm.const(-pre[n])) if pre[n] else to_num(x).t)
                    ok = sg is not None and -1 not in sg
                if not ok:
                    weak.append(n)
        if not weak:
            break
        for n in weak:
            kinds[n] = 'real'
    else:
        raise Unsupported('no sign invariant')
    w.kinds = kinds
    w.memo = interp.loop_memo
    for n in sorted(pre):
        if kinds[n] in ('pos', 'nonneg'):
            V._g('%s: sign of carried values preserved' % tag, 'proved', 'sign')
    w.postval = dict((n, fr.locals[n]) for n in names if n in fr.locals)
    # the same loop state was judged on an earlier path with the same decisions
    memo = interp.loop_memo
    here = (id(st), tuple(c.taken))
    if here in memo:
        out, w.kind, w.out = memo[here]
    else:
        out = contract(w)        # records goals; {name: abstract term}
        memo[here] = out, w.kind, w.out
    # --- leave or iterate
    again = interp.truth(interp.eval(st.test, fr))
    way = (id(st), tuple(c.taken), 'out')
    if again:
        cnt = [n for n in pre if kinds[n] == 'int']
        ok = False
        for n in cnt:
            if c.formula_truth(tm.eq(w.post[n], tm.add(w.v[n], tm.ONE))) is True and c.feasible(tm.le(tm.T(1000), w.post[n])) is False:
                ok = True
        if ok:
            V._g(tag + ': terminates', 'proved', 'z3')
        else:
            V._g(tag + ': terminates', 'undecided', 'z3', 'no counter that grows by one and is bounded by the loop test')
        raise LoopBack()
    conv = getattr(contract, 'on_exit', None)
    if conv is not None and way not in memo:
        conv(w)
        memo[way] = True
    # all the ways to leave end in the same abstract state: follow one of them
    first = memo.setdefault((id(st), entry, 'exit'), tuple(c.taken))
    if first != tuple(c.taken):
        raise LoopBack()
    spaces = {n: v for n, v in w.postval.items()}
    S0.restore()
    # facts about the state of the loop are of no use after it
    inner = {x for x in c.doms if '#' in x and int(x.rsplit('#', 1)[1]) >= fresh0}
    c.facts = [h for h in c.facts if not (tm.free_vars(h) & inner)]
    c.ufacts = [h for h in c.ufacts if not (tm.free_vars(h) & inner)]
    c.version += 1
    c._pool = None
    for n in names:
        if out is not None and n in out:
            v = spaces[n]
            fr.locals[n] = Arr(v.space, Num(out[n], 'f'), 'f') if isinstance(v, Arr) else Num(out[n], 'f')
        else:
            fr.locals[n] = Poison(n)
    return True
