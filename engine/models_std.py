"""More of core: combinators of bool, Option and Result, short-circuiting folds, generators, Cell."""
from models import *
from models import _kc
import models

RES = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
none_v = models.none_


def cases(v):
    """{variant: (condition, fields)} of an enum value, or None"""
    if v.k != 'Enum':
        return None
    r = {}
    for vi, c, f in v.a[1]:
        if vi in r:
            return None
        r[vi] = (c, f)
    return r


def arms(cx, v, table):
    """table: {variant: fn(state, fields) -> (value, state)}; merges the cases of an enum value"""
    cs = cases(v)
    if cs is None:
        return U(cx.n)
    parts = []
    for vi, (c, f) in cs.items():
        s = cx.st.assume(c)
        if s is not None:
            parts.append((s, lambda s, f=f, g=table[vi]: g(s, f)))
    return branch(cx.I, parts)


def caller(cx, f, wrap=None):
    def g(s, args):
        v, s = cx.I.call_value(f, list(args), s, None, cx.span)
        if s is None:
            return None, None
        return (wrap(v) if wrap else v), s
    return g


const = lambda v: lambda s, f: (v, s)
ok = lambda v: enum(RES, [(0, TRUE, (v,))])
err = lambda v: enum(RES, [(1, TRUE, (v,))])


# ---------------------------------------------------------------- bool
@m('bool::then_some')
def _(cx, b, v):
    if b.k != 'B':
        return U('then_some')
    if b is FALSE:
        return none_v()
    return some(v, b)


@m('bool::then')
def _(cx, b, f):
    if b.k != 'B':
        return U('then')
    return branch(cx.I, [(cx.st.assume(b), lambda s: caller(cx, f, some)(s, ())), (cx.st.assume(bnot(b)), lambda s: (none_v(), s))])


# ---------------------------------------------------------------- Option
@m('Option::or')
def _(cx, o, d):
    return arms(cx, o, {1: lambda s, f: (some(f[0]), s), 0: const(d)})


@m('Option::or_else')
def _(cx, o, g):
    return arms(cx, o, {1: lambda s, f: (some(f[0]), s), 0: lambda s, f: caller(cx, g)(s, ())})


@m('Option::and')
def _(cx, o, d):
    return arms(cx, o, {1: const(d), 0: const(none_v())})


@m('Option::map_or_else')
def _(cx, o, d, g):
    return arms(cx, o, {1: caller(cx, g), 0: lambda s, f: caller(cx, d)(s, ())})


@m('Option::ok_or_else')
def _(cx, o, g):
    return arms(cx, o, {1: lambda s, f: (ok(f[0]), s), 0: lambda s, f: caller(cx, g, err)(s, ())})


@m('Option::zip')
def _(cx, a, b):
    x, y = opt_cases(a), opt_cases(b)
    if x is None or y is None:
        return U('zip')
    if x[2] is None or y[2] is None:
        return none_v()
    return some(agg('tuple', [x[2], y[2]]), band(x[1], y[1]))


@m('Option::xor')
def _(cx, a, b):
    x, y = opt_cases(a), opt_cases(b)
    if x is None or y is None:
        return U('xor')
    if x[2] is None and y[2] is None:
        return none_v()
    v = y[2] if x[2] is None else x[2] if y[2] is None else merge(x[1], x[2], y[2])
    return some(v, bxor(x[1], y[1]))


@m('Option::flatten')
def _(cx, o):
    return arms(cx, o, {1: lambda s, f: (f[0], s), 0: const(none_v())})


@m('Option::inspect')
def _(cx, o, g):
    def f_(s, f):
        s = s.copy()
        v, s = cx.I.call_value(g, [ptr(cx.I.newroot(s, f[0]))], s, None, cx.span)
        return (some(f[0]), s) if s is not None else (None, None)
    return arms(cx, o, {1: f_, 0: const(none_v())})


@m('Option::replace', 'Option::insert')
def _(cx, p, v):
    st = cx.st.copy()
    old = cx.I.load(st, p)
    cx.I.store(st, p, some(v))
    if cx.n.endswith('insert'):
        return cx.I.sub_ptr(p, ('v', 1), ('f', 0)), st
    return old, st


@m('Option::unwrap_or_default')
def _(cx, o):
    return arms(cx, o, {1: lambda s, f: (f[0], s), 0: lambda s, f: (M['Default::default'](cx), s)})


# ---------------------------------------------------------------- Result
@m('Result::is_ok', 'Result::is_err')
def _(cx, r):
    v = cx.val(r)
    cs = cases(v)
    if cs is None:
        return cx.I.unkb(v)
    return cs.get(0 if cx.n.endswith('ok') else 1, (FALSE, ()))[0]


@m('Result::ok', 'Result::err')
def _(cx, r):
    w = 0 if cx.n.endswith('::ok') else 1
    return arms(cx, r, {w: lambda s, f: (some(f[0]), s), 1 - w: const(none_v())})


@m('Result::map', 'Result::and_then')
def _(cx, r, g):
    return arms(cx, r, {0: caller(cx, g, ok if cx.n.endswith('map') else None), 1: lambda s, f: (err(f[0]), s)})


@m('Result::map_err', 'Result::or_else')
def _(cx, r, g):
    return arms(cx, r, {1: caller(cx, g, err if cx.n.endswith('map_err') else None), 0: lambda s, f: (ok(f[0]), s)})


@m('Result::unwrap_or')
def _(cx, r, d):
    return arms(cx, r, {0: lambda s, f: (f[0], s), 1: const(d)})


@m('Result::unwrap_or_else')
def _(cx, r, g):
    return arms(cx, r, {0: lambda s, f: (f[0], s), 1: caller(cx, g)})


@m('Result::map_or')
def _(cx, r, d, g):
    return arms(cx, r, {0: caller(cx, g), 1: const(d)})


@m('Result::as_ref', 'Result::as_mut')
def _(cx, o):
    v = cx.I.load(cx.st, o)
    if v.k != 'Enum':
        return U('as_ref')
    return enum(v.a[0], [(vi, c, (cx.I.sub_ptr(o, ('v', vi), ('f', 0)),)) for vi, c, f in v.a[1]])


@m('Ordering::then')
def _(cx, a, b):
    return arms(cx, a, {0: lambda s, f: (enum(models.ORD, [(0, TRUE, ())]), s), 2: lambda s, f: (enum(models.ORD, [(2, TRUE, ())]), s), 1: const(b)})


@m('Ordering::then_with')
def _(cx, a, g):
    return arms(cx, a, {0: lambda s, f: (enum(models.ORD, [(0, TRUE, ())]), s), 2: lambda s, f: (enum(models.ORD, [(2, TRUE, ())]), s),
                        1: lambda s, f: caller(cx, g)(s, ())})


@m('TryInto::try_into', 'TryFrom::try_from')
def _(cx, x):
    """slices and vectors to arrays (or references to them)"""
    I = cx.I
    t = I.ty(cx.dty) if cx.dty is not None else {'k': '?'}
    if not (t['k'] == 'adt' and t['p'] == RES):
        return U('try_into')
    w = I.ty(t['a'][0]['t'])
    v = x
    byref = w['k'] == 'ref'
    if byref:
        w = I.ty(w['e'])
    if w['k'] != 'array':
        return U('try_into')
    n = I.constp(w['n'])
    s = cx.val(v) if v.k == 'Ptr' else v
    if n is None or s.k != 'Seq':
        return U('try_into')
    c = eqi(seqlen(s), n)
    return enum(RES, [(0, c, (x if byref else s,)), (1, bnot(c), (UNIT if v.k == 'Ptr' else s,))])


# ---------------------------------------------------------------- short-circuiting folds
def loop_until(cx, st, it, take, name):
    """take(state, element) -> (state to go on with or None, state to leave with or None)"""
    I = cx.I

    def step(s):
        o, s = it_next(I, s, it, cx.span)
        if s is None:
            return None, []
        oc = opt_cases(o)
        if oc is None:
            s = s.copy()
            I.havoc_all(s, 'unknown iterator')
            return None, [('x', s)]
        no, so, e = oc
        s1 = s.assume(so) if e is not None else None
        s0 = s.assume(no)
        outs = [('x', s0)] if s0 is not None else []
        if s1 is None:
            return None, outs
        go, leave = take(s1, e)
        if leave is not None:
            outs.append(('x', leave))
        return go, outs
    from interp import merge_states
    return merge_states([s for _, s in I.run_loop(st, step, None, name)])


TRY = {OPT: (1, 0), RES: (0, 1), CF: (0, 1)}


@m('Iterator::try_fold', 'Iterator::try_for_each', 'DoubleEndedIterator::try_rfold')
def _(cx, p, *r):
    I = cx.I
    fold_ = not cx.n.endswith('each')
    t = I.ty(cx.dty) if cx.dty is not None else {'k': '?'}
    if not (t['k'] == 'adt' and t['p'] in TRY):
        return U('try_fold')
    go_v, brk_v = TRY[t['p']]
    st = cx.st.copy()
    it = p
    if cx.n.endswith('rfold'):
        v = I.load(st, p)
        x = it_rev(to_it(I, st, v) or v)
        if x is None:
            return U('try_rfold')
        it = ptr(I.newroot(st, x))
        I.store(st, p, U('partly consumed iterator'))
    fp = as_place(I, r[-1], st)
    acc = ptr(I.newroot(st, r[0] if fold_ else UNIT))
    done = ptr(I.newroot(st, U('no result')))
    left = ptr(I.newroot(st, FALSE))

    def take(s, e):
        v, s = I.call_value(fp, [I.load(s, acc), e] if fold_ else [e], s, None, cx.span)
        if s is None:
            return None, None
        cs = cases(v)
        s = s.copy()
        if cs is None:
            I.store(s, done, U('try_fold'))
            I.store(s, left, TRUE)
            I.havoc_all(s, 'try_fold on an unknown result')
            return None, s
        go = leave = None
        if brk_v in cs:
            leave = s.assume(cs[brk_v][0])
            if leave is not None:
                leave = leave.copy()
                I.store(leave, done, enum(t['p'], [(brk_v, TRUE, cs[brk_v][1])]))
                I.store(leave, left, TRUE)
        if go_v in cs:
            go = s.assume(cs[go_v][0])
            if go is not None and fold_:
                go = go.copy()
                I.store(go, acc, cs[go_v][1][0])
        return go, leave
    st = loop_until(cx, st, it, take, 'try_fold@' + str(cx.span))
    if st is None:
        return None, None
    l = I.load(st, left)
    if l.k != 'B':
        return U('try_fold'), st
    full = lambda s: (enum(t['p'], [(go_v, TRUE, (I.load(s, acc),))]), s)
    return branch(I, [(st.assume(l), lambda s: (simp(I.load(s, done), s.pc), s)), (st.assume(bnot(l)), full)])


@m('Iterator::find_map')
def _(cx, p, f):
    I = cx.I
    st = cx.st.copy()
    fp = as_place(I, f, st)
    res = ptr(I.newroot(st, none_v()))

    def take(s, e):
        v, s = I.call_value(fp, [e], s, None, cx.span)
        if s is None:
            return None, None
        oc = opt_cases(v)
        if oc is None:
            s = s.copy()
            I.store(s, res, U('find_map'))
            I.havoc_all(s, 'find_map on an unknown result')
            return None, s
        hit = s.assume(oc[1]) if oc[2] is not None else None
        if hit is not None:
            hit = hit.copy()
            I.store(hit, res, some(oc[2]))
        return s.assume(oc[0]), hit
    st = loop_until(cx, st, p, take, 'find_map@' + str(cx.span))
    if st is None:
        return None, None
    return I.load(st, res), st


@m('DoubleEndedIterator::rfind')
def _(cx, p, f):
    I = cx.I
    st = cx.st.copy()
    v = I.load(st, p)
    if v.k == 'Agg' and not is_it(v):
        v = to_it(I, st, v) or v
    if idx(v) and v.a[1][2] is not INF:
        return models.search(cx, p, v, f, st)
    return U('rfind'), st


@m('Iterator::eq', 'Iterator::ne')
def _(cx, a, b):
    I = cx.I
    x, y = take_it(cx, a), take_it(cx, b)
    if x is not None and y is not None and idx(x) and idx(y):
        xs, n = rest(x)
        ys, k = rest(y)
        if n is not INF and k is not INF:
            xs = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
            ys = ys if seqlen(ys) is k else sub_seq(ys, P0, k)
            r = models.veq(I, xs, ys, cx.st)
            if r.k == 'B':
                return r if cx.n.endswith('eq') else bnot(r)
    return I.unkb(agg('tuple', [a, b]))


@m('DoubleEndedIterator::nth_back')
def _(cx, p, n):
    I, st = cx.I, cx.st
    v = I.load(st, p)
    if v.k == 'Agg' and not is_it(v):
        v = to_it(I, st, v) or v
    if idx(v) and n.k == 'P' and v.a[1][2] is not INF:
        items, lo, hi = v.a[1]
        q = psub(psub(hi, P1), n)
        c = simpb(le(lo, q), st.pc)
        st = st.copy()
        I.store(st, p, mkit(items, lo, merge(c, q, lo)))
        if c is FALSE:
            return none_v(), st
        return some(seqat(items, q), c), st
    return U('nth_back'), st


# ---------------------------------------------------------------- generators
@m('iter::successors', 'successors::successors')
def _(cx, first, f):
    st = cx.st.copy()
    return agg(('it', 'succ'), [first, as_place(cx.I, f, st)]), st


@m('iter::from_fn', 'from_fn::from_fn')
def _(cx, f):
    st = cx.st.copy()
    return agg(('it', 'fromfn'), [as_place(cx.I, f, st)]), st


def next_more(I, st, p, v, span):
    """next for the kinds of iterators defined here (called by it_next)"""
    kind, f = v.a[0][1], v.a[1]
    if kind == 'fromfn':
        return I.call_value(f[0], [], st, None, span)
    if kind == 'succ':
        cur = I.load(st, I.sub_ptr(p, ('f', 0)))
        oc = opt_cases(cur)
        if oc is None:
            return U('successors'), st

        def go(s):
            s = s.copy()
            r, s = I.call_value(f[1], [ptr(I.newroot(s, oc[2]))], s, None, span)
            if s is None:
                return None, None
            s = s.copy()
            I.store(s, I.sub_ptr(p, ('f', 0)), r)
            return some(oc[2]), s
        return branch(I, [(st.assume(oc[1]) if oc[2] is not None else None, go), (st.assume(oc[0]), lambda s: (none_v(), s))])
    if kind == 'scan':
        o, st = it_next(I, st, I.sub_ptr(p, ('f', 0)), span)
        if st is None:
            return None, None
        oc = opt_cases(o)
        if oc is None:
            return U('scan'), st
        return branch(I, [(st.assume(oc[1]) if oc[2] is not None else None, lambda s: I.call_value(f[2], [f[1], oc[2]], s, None, span)),
                          (st.assume(oc[0]), lambda s: (none_v(), s))])
    return None


# ---------------------------------------------------------------- slices
@m('slice::ends_with')
def _(cx, p, q):
    return affix(cx, p, q, False)


@m('slice::starts_with')
def _(cx, p, q):
    return affix(cx, p, q, True)


def affix(cx, p, q, front):
    a, b = seqof(cx, p)[1], seqof(cx, q)[1]
    if a.k == 'Seq' and b.k == 'Seq':
        n, k = seqlen(a), seqlen(b)
        r = models.veq(cx.I, mkseq(k, lambda i: seqat(a, i if front else padd(psub(n, k), i))), b, cx.st)
        if r.k == 'B':
            return band(le(k, n), r)
    return cx.I.unkb(agg('tuple', [p, q]))


M['slice::split_first_mut'] = M['slice::split_last_mut'] = M['slice::split_first']


@m('Vec::extend_from_within')
def _(cx, p, r):
    I = cx.I
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        return U('extend_from_within')
    b = models.range_of(cx, r, seqlen(s))
    if not b or any(x.k != 'P' for x in b[:2]):
        return U('extend_from_within')
    lo, hi = b[0], b[1]
    st = I.panic(cx.st, bor(lt(hi, lo), lt(seqlen(s), hi)), 'slice', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    I.store(st, p2, concat(s, sub_seq(s, lo, psub(hi, lo))))
    return UNIT, st


# ---------------------------------------------------------------- interior mutability without guards
@m('Cell::new', 'Cell::into_inner')
def _(cx, x):
    return x


@m('Cell::get')
def _(cx, p):
    return cx.I.load(cx.st, p)


@m('Cell::set', 'Cell::replace')
def _(cx, p, v):
    st = cx.st.copy()
    old = cx.I.load(st, p)
    cx.I.store(st, p, v)
    return (UNIT if cx.n.endswith('set') else old), st
