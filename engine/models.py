"""Meaning of calls: constructors, crate functions, operations of type parameters, and
the parts of core/alloc/std/rand the crate (or a reasonable rewrite of it) uses."""
import re
from terms import *
import terms
from logic import *

INF = psym('INF')

_kc = {}


def short(p):
    """'core::slice::<impl [T]>::iter' -> 'slice::iter'"""
    r = _kc.get(p)
    if r is None:
        s = p
        s = re.sub(r'<impl \[\[?T; N\]?(; M\])?>', 'array', s)
        s = re.sub(r'<impl \[\[?T\]?(; N)?\]>', 'slice', s)
        s = re.sub(r'<impl \[.*?\]>', 'slice', s)
        s = re.sub(r'<impl (\w+)>', r'\1', s)
        while '<' in s:
            t = re.sub(r'(::)?<[^<>]*>', '', s)
            if t == s:
                break
            s = t
        parts = s.split('::')
        r = '::'.join(parts[-2:])
        _kc[p] = r
    return r


M = {}


def m(*names):
    def f(g):
        for n in names:
            M[n] = g
        return g
    return f


class Cx:
    """call context"""
    __slots__ = ('I', 'c', 'st', 'dty', 'span', 'n')

    def __init__(self, I, c, st, dty, span):
        self.I, self.c, self.st, self.dty, self.span = I, c, st, dty, span

    def val(self, v):
        return self.I.deref(self.st, v)


# ---------------------------------------------------------------- dispatch
OPS = {'Add::add': 'add', 'Sub::sub': 'sub', 'Mul::mul': 'mul', 'Div::div': 'div', 'Rem::rem': 'rem', 'Neg::neg': 'neg',
       'MulRefs::mul_refs': 'mul', 'DivRefs::div_refs': 'div', 'Not::not': 'not',
       'BitAnd::bitand': 'bitand', 'BitOr::bitor': 'bitor', 'BitXor::bitxor': 'bitxor', 'Shl::shl': 'shl', 'Shr::shr': 'shr'}
ASG = {'AddAssign::add_assign': 'add', 'SubAssign::sub_assign': 'sub', 'MulAssign::mul_assign': 'mul', 'DivAssign::div_assign': 'div',
       'RemAssign::rem_assign': 'rem', 'BitAndAssign::bitand_assign': 'bitand', 'BitOrAssign::bitor_assign': 'bitor'}
REL = {'PartialEq::eq': 'eq', 'PartialEq::ne': 'ne', 'PartialOrd::lt': 'lt', 'PartialOrd::le': 'le', 'PartialOrd::gt': 'gt', 'PartialOrd::ge': 'ge'}
FUN = {'Abs::abs': 'abs', 'Asin::asin': 'asin', 'Atan2::atan2': 'atan2', 'Cos::cos': 'cos', 'Cosh::cosh': 'cosh', 'Exp::exp': 'exp', 'Ln::ln': 'ln',
       'Sin::sin': 'sin', 'Sinh::sinh': 'sinh', 'Sqrt::sqrt': 'sqrt', 'Tan::tan': 'tan', 'Conj::conj': 'conj'}


def dispatch(I, c, args, st, dty, span):
    k = c['k']
    if k == 'ctor':
        t = I.ty(c['ty'])
        if t['k'] == 'adt' and t.get('enum'):
            return enum(t['p'], [(c['vi'], TRUE, args)]), st
        return agg(t['p'], args), st
    if k == 'inst':
        f = I.fns.get(c['key'])
        if f is None:
            return unknown(I, c, args, st, 'no body')
        if len(args) != f['argc']:
            return unknown(I, c, args, st, 'arity')
        return I.run_fn(c['key'], args, st)
    cx = Cx(I, c, st, dty, span)
    p = short(c['p'])
    cx.n = p
    if k == 'fncall' or p in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
        tup = args[1]
        a = list(tup.a[1]) if tup.k == 'Agg' else [tup]
        d = I.deref(st, args[0])
        if d.k == 'E' and p == 'FnMut::call_mut':
            return impure_call(I, d, a, st, dty)
        return I.call_value(args[0], a, st, dty, span)
    if k == 'shim':
        if p == 'Clone::clone':
            return I.load(st, args[0]), st
        return unknown(I, c, args, st, 'shim')
    h = M.get(p)
    if h is None and c.get('rp'):
        h = M.get(short(c['rp']))
    if p in OPS:
        return op_call(cx, OPS[p], args)
    if p in ASG:
        return assign_call(cx, ASG[p], args)
    if p in REL:
        return rel_call(cx, REL[p], args)
    if p in FUN:
        vs = [cx.val(a) for a in args]
        return gfun(I, FUN[p], vs), st
    if h is not None:
        if p in MUT and any(a is not None and a.k == 'G' for a in args[1:]):
            args = args[:1] + [simp(a, st.pc) if a is not None else a for a in args[1:]]
            I.split(st, args[1:])
        r = h(cx, *args)
        v, s = r if type(r) is tuple else (r, cx.st)
        if v is not None and v.k == 'U' and s is not None:
            # no answer for these arguments: whatever they refer to may be changed by what uses the result
            I.split(st, args)
            return v, havoc_reach(I, args, s, c)
        return v, s
    if p.startswith('f32::') or p.startswith('f64::'):
        return float_call(cx, p, args), st
    if p.split('::')[0] in INTS:
        r = int_call(cx, p, args)
        if r is not None:
            return r
    return unknown(I, c, args, st, 'no model')


# these change their first argument; the others say that they have no answer by an unknown result
MUT = ('Vec::resize', 'Vec::resize_with', 'Vec::truncate', 'Vec::drain', 'Vec::insert', 'Vec::extend', 'Extend::extend', 'slice::fill',
       'slice::swap', 'slice::rotate_left', 'slice::rotate_right', 'slice::copy_from_slice', 'slice::clone_from_slice', 'Vec::extend_from_slice')
INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def unknown(I, c, args, st, why):
    n = c.get('rp') or c['p']
    I.unknown_calls[n] = I.unknown_calls.get(n, 0) + 1
    I.notes.append('%s: %s' % (why, n))
    I.split(st, args)
    return U('result of %s' % n), havoc_reach(I, args, st, c)


def havoc_reach(I, args, st, c):
    """anything reachable through a reference may change"""
    n = c.get('rp') or c['p']
    st = st.copy()
    from interp import ptr_roots
    todo = []
    for a in args:
        todo += list(ptr_roots(a))
    seen = set()
    while todo:
        r = todo.pop()
        if r in seen or r not in st.mem or st.mem[r] is None:
            continue
        seen.add(r)
        todo += list(ptr_roots(st.mem[r]))
        st.mem[r] = U('passed to %s' % n)
    return st


# ---------------------------------------------------------------- element operations
def scalar_op(I, op, a, b, st=None):
    """binary operator on scalars (elements or integers)"""
    if op in ('not',):
        return bnot(a) if a.k == 'B' else U('not')
    if b is None:
        return I.unop('Neg', a, st)
    if a.k == 'U':
        return a
    if b.k == 'U':
        return b

    def f(x, y):
        if x.k == 'P' and y.k == 'P' or x.k == 'B':
            return I.binop({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr',
                            'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}[op], x, y, st)
        if x.k == 'E' and y.k == 'E':
            return I.eop(op, x, y)
        return U('%s on %s,%s' % (op, x.k, y.k))
    if a.k == 'B' and b.k == 'B':
        return f(a, b)
    return gmap2(a, b, f)


def op_call(cx, op, args):
    I, st = cx.I, cx.st
    vs = [cx.val(a) for a in args]
    if op == 'not':
        return scalar_op(I, op, vs[0], None), st
    a = vs[0]
    b = vs[1] if len(vs) > 1 else None
    if b is not None and op == 'sub' and all(l.k == 'P' for l, c in gcases(a)) and all(l.k == 'P' for l, c in gcases(b)):
        from interp import gmap2b
        uns = True
        t = I.ty(cx.dty) if cx.dty is not None else None
        if t is not None and t['k'] == 'int':
            uns = False
        if uns:
            st = I.panic(st, gmap2b(a, b, lt), 'overflow', cx.span)
            if st is None:
                return None, None
    return scalar_op(I, op, a, b, st), st


def assign_call(cx, op, args):
    I, st = cx.I, cx.st.copy()
    old = cx.val(args[0])
    new = scalar_op(I, op, old, cx.val(args[1]), st)
    p = args[0]
    # innermost pointer
    while p.k == 'Ptr' and I.load(st, p).k == 'Ptr':
        p = I.load(st, p)
    I.store(st, p, new)
    return UNIT, st


def veq(I, a, b, st):
    """structural equality of values as B"""
    if a.k == 'U' or b.k == 'U':
        return I.unkb(a if a.k == 'U' else b)
    a, b = I.deref(st, a), I.deref(st, b)
    if a.k == 'B' and b.k == 'B':
        return bnot(bxor(a, b))
    if a.k == 'G' or b.k == 'G':
        r = FALSE
        for x, c in gcases(a):
            for y, d in gcases(b):
                q = band(c, d)
                if q is not FALSE:
                    r = bor(r, band(q, veq(I, x, y, st)))
        return r
    if a.k == 'P' and b.k == 'P':
        return eqi(a, b)
    if a.k == 'E' and b.k == 'E':
        return I.erel('eq', a, b)
    if a.k == 'Agg' and b.k == 'Agg' and a.a[0] == b.a[0] and a.a[0] in I.own_eq:
        key = I.own_eq[a.a[0]]
        s = st.copy()
        I.ntmp += 1
        s.mem[('cmp', I.ntmp, 0)] = a
        s.mem[('cmp', I.ntmp, 1)] = b
        v, s = I.run_fn(key, [ptr(('cmp', I.ntmp, 0), ()), ptr(('cmp', I.ntmp, 1), ())], s)
        return v if v is not None and v.k == 'B' else I.unkb(agg('tuple', [a, b]))
    if a.k == 'Agg' and b.k == 'Agg' and len(a.a[1]) == len(b.a[1]):
        return band(*[veq(I, x, y, st) for x, y in zip(a.a[1], b.a[1])])
    if a.k == 'Seq' and b.k == 'Seq':
        c = eqi(seqlen(a), seqlen(b))
        if c is FALSE:
            return FALSE
        if a.a[1] == 'lit' and b.a[1] == 'lit':
            return band(c, *[veq(I, x, y, st) for x, y in zip(a.a[2], b.a[2])])
        k = fresh('k')
        kp = pa(k)
        body = bimp(lt(kp, seqlen(a)), veq(I, seqat(a, kp), seqat(b, kp), st))
        # the contents are only compared when the lengths agree
        return band(c, forall(k, simpb(body, c) if c is not TRUE else body))
    if a.k == 'Enum' and b.k == 'Enum':
        r = FALSE
        for v, c, f in a.a[1]:
            for w, d, g in b.a[1]:
                if v == w:
                    r = bor(r, band(c, d, *[veq(I, x, y, st) for x, y in zip(f, g)]))
        return r
    return I.unkb(agg('tuple', [a, b]))


def rel_call(cx, op, args):
    I, st = cx.I, cx.st
    a, b = cx.val(args[0]), cx.val(args[1])
    c = cx.c
    if op in ('eq', 'ne'):
        # the crate's own == behind references and containers
        old = I.own_eq
        I.own_eq = {I.ty(im['st']).get('p'): im['key'] for im in c.get('imp', ()) if im.get('eq') and im['key'] in I.fns}
        try:
            r = veq(I, a, b, st)
        finally:
            I.own_eq = old
        return (r if op == 'eq' else bnot(r)), st
    from interp import gmap2b
    if a.k in ('Agg', 'Seq', 'Enum'):
        if a.k == 'Enum' and b.k == 'Enum':
            x, y = I.discr(a, True), I.discr(b, True)
            return gmap2b(x, y, lambda u, v: I.cmp(op.capitalize(), u, v)), st
        return I.unkb(agg('tuple', [a, b])), st
    return gmap2b(a, b, lambda x, y: I.erel(op, x, y)), st


EXACTFUN = {}


def gfun(I, f, vs):
    for i, v in enumerate(vs):
        if v.k == 'G':
            return gmap(v, lambda l: gfun(I, f, vs[:i] + [l] + vs[i + 1:]))
        if v.k == 'U':
            return v
        if v.k != 'E':
            if f == 'conj' and v.k == 'P':
                return v
            if f == 'abs' and v.k == 'P':
                return merge(ge0(v), v, pneg(v))
            return U('%s of %s' % (f, v.k))
    return efun(I, f, vs)


def sqrt_const(c):
    """sqrt(p/q) = r sqrt(n) / q with n square-free"""
    c = Fraction(c)
    n = c.numerator * c.denominator
    r = 1
    k = 2
    while k * k <= n and k < 10000:
        while n % (k * k) == 0:
            n //= k * k
            r *= k
        k += 1
    f = ec(Fraction(r, c.denominator))
    return f if n == 1 else emul(f, eapp('sqrt', ec(n)))


def efun(I, f, vs):
    if not CFG.exact:
        return eapp(f, *vs)
    x = vs[0]
    c = econst(x)
    if c is not None:
        if f in ('sin', 'tan', 'sinh', 'asin', 'sqrt', 'abs') and c == 0:
            return E0
        if f in ('cos', 'cosh', 'exp') and c == 0:
            return E1
        if f == 'ln' and c == 1:
            return E0
        if f == 'abs':
            return ec(abs(c))
        if f == 'exp' and c == 1:
            return eapp('euler')
        if f == 'sqrt' and c > 0:
            from math import isqrt
            a, b = c.numerator, c.denominator
            if isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
                return ec(Fraction(isqrt(a), isqrt(b)))
    if CFG.comm and f == 'sqrt' and x.a:
        lead = abs(Fraction(x.a[-1][1]))
        if c is not None and lead > 0 and c > 0:
            return sqrt_const(c)
        if lead != 1:
            return emul(sqrt_const(lead), eapp('sqrt', escale(x, 1 / lead)))
    if CFG.comm and len(x.a) >= 1:
        lead = x.a[-1][1]
        if lead < 0 and f in ('sin', 'sinh', 'tan', 'asin'):
            return eneg(eapp(f, eneg(x)))
        if lead < 0 and f in ('cos', 'cosh', 'abs'):
            return eapp(f, eneg(x))
    return eapp(f, *vs)


FLN = {'abs', 'asin', 'atan2', 'cos', 'cosh', 'exp', 'ln', 'sin', 'sinh', 'sqrt', 'tan'}


def ieee_call(I, p, f, vs):
    """any method of a float type, uninterpreted"""
    for i, v in enumerate(vs):
        if v.k == 'G':
            return gmap(v, lambda l: ieee_call(I, p, f, vs[:i] + [l] + vs[i + 1:]))
    if any(v.k not in 'EP' for v in vs):
        return U('float ' + f)
    if f == 'is_nan':
        return bnot(relb('le', vs[0], vs[0]))
    if f.startswith('is_'):
        return bat(atom('b', 'app', p, tuple(vs)))
    if f == 'sin_cos':
        ty = p.split('::')[0]
        return agg('tuple', [eapp(ty + '::sin', *vs), eapp(ty + '::cos', *vs)])
    if f in ('to_bits', 'classify', 'partial_cmp', 'total_cmp', 'from_bits', 'to_int_unchecked') or f.endswith('_bytes'):
        return U('float ' + f)
    return eapp(p, *vs)


def float_call(cx, p, args):
    I = cx.I
    vs = [cx.val(a) for a in args]
    f = p.split('::')[1]
    if CFG.ieee:
        return ieee_call(I, p, f, vs)
    if I.mode == 'free' or CFG.ord == 'float':
        if f in ('min', 'max', 'clamp', 'is_nan') or any(v.k == 'U' for v in vs):
            pass
        elif all(v.k == 'E' for v in vs):
            return eapp(p, *vs)
    if f in FLN:
        return gfun(I, f, vs)
    x = vs[0]

    def g(h):
        return gmap(x, lambda l: h(l) if l.k == 'E' else U('float'))
    if f == 'is_nan':
        if CFG.ord == 'float' and x.k == 'E':
            return bnot(relb('le', x, x))
        return FALSE if CFG.exact else I.unkb(x)
    if f == 'exp_m1':
        return gsub(gfun(I, 'exp', vs), E1)
    if f == 'ln_1p':
        return gfun(I, 'ln', [gadd(x, E1)])
    if f == 'recip':
        return ginv(x)
    if f == 'mul_add':
        return gadd(gmul(x, vs[1]), vs[2])
    if f == 'powi' and vs[1].k == 'P':
        return g(lambda l: epow(l, vs[1]))
    if f == 'powf' and vs[1].k == 'E' and econst(vs[1]) is not None:
        c = econst(vs[1])
        if c.denominator == 1:
            return g(lambda l: epow(l, pc(int(c))))
        if c == Fraction(1, 2):
            return gfun(I, 'sqrt', [x])
    if f == 'hypot':
        return gfun(I, 'sqrt', [gadd(gmul(x, x), gmul(vs[1], vs[1]))])
    if f == 'to_radians':
        return gmul(x, escale(eapp('pi'), Fraction(1, 180)))
    if f in ('min', 'max') and CFG.ord:
        c = relb('le', x, vs[1])
        return merge(c, x, vs[1]) if f == 'min' else merge(c, vs[1], x)
    if f == 'sin_cos':
        return agg('tuple', [gfun(I, 'sin', vs), gfun(I, 'cos', vs)])
    if all(v.k == 'E' for v in vs):
        return eapp(f, *vs)
    return U('float ' + f)


def int_call(cx, p, args):
    I, st = cx.I, cx.st
    ty, f = p.split('::')
    vs = [cx.val(a) for a in args]
    if any(v.k == 'U' for v in vs):
        return vs[0] if vs[0].k == 'U' else vs[1], st

    def b2(h):
        return gmap2(vs[0], vs[1], lambda x, y: h(x, y) if x.k == 'P' and y.k == 'P' else U('int'))
    uns = ty[0] == 'u'
    if f in ('min_value',):
        return (P0 if uns else U('min_value')), st
    if f == 'saturating_sub' and uns:
        return b2(lambda x, y: psub(x, y) if evid_nn(psub(x, y)) else psub(imax(x, y), y)), st
    if f == 'abs_diff':
        return b2(lambda x, y: merge(le(y, x), psub(x, y), psub(y, x))), st
    if f in ('saturating_add', 'unchecked_add', 'wrapping_add', 'strict_add'):
        return b2(padd), st
    if f in ('saturating_mul', 'wrapping_mul', 'unchecked_mul'):
        return b2(pmul), st
    if f == 'checked_sub' and uns:
        x, y = vs
        if x.k == 'P' and y.k == 'P':
            return some(psub(x, y), le(y, x)), st
    if f == 'checked_add' and len(vs) == 2 and vs[0].k == 'P':
        return some(b2(padd)), st
    if f == 'checked_mul' and len(vs) == 2 and vs[0].k == 'P':
        return some(b2(pmul)), st
    if f in ('checked_div', 'checked_rem', 'checked_div_euclid', 'checked_rem_euclid') and uns:
        x, y = vs
        if x.k == 'P' and y.k == 'P':
            nz = bnot(eqi(y, P0))
            if nz is FALSE:
                return none_(), st
            return some((imod if 'rem' in f else idiv)(x, y), nz), st
    if f == 'div_euclid' and uns:
        return b2(idiv), st
    if f == 'is_multiple_of' and uns:
        x, y = vs
        if x.k == 'P' and y.k == 'P':
            z = eqi(y, P0)
            return bor(band(z, eqi(x, P0)), band(bnot(z), eqi(imod(x, y), P0)) if z is not TRUE else FALSE), st
    if f == 'next_multiple_of' and uns:
        return b2(lambda x, y: pmul(idiv(psub(padd(x, y), P1), y), y)), st
    if f == 'wrapping_sub':
        x, y = vs
        if x.k == 'P' and y.k == 'P' and (entails(st.pc, le(y, x)) or not uns):
            return psub(x, y), st
        return U('wrapping_sub'), st
    if f == 'div_ceil':
        return b2(lambda x, y: idiv(psub(padd(x, y), P1), y)), st
    if f == 'rem_euclid' and uns:
        return b2(imod), st
    if f == 'pow':
        c = pconst(vs[1]) if vs[1].k == 'P' else None
        if c is not None and c < 10:
            r = P1
            for _ in range(c):
                r = gmap2(r, vs[0], pmul)
            return r, st
    if f == 'is_power_of_two':
        return I.unkb(vs[0]), st
    if f == 'abs':
        return gmap(vs[0], lambda l: merge(ge0(l), l, pneg(l))), st
    return None


# ---------------------------------------------------------------- scalars, constants
@m('Zero::zero')
def _(cx):
    return elem_const(cx, 'zero', 0)


@m('One::one')
def _(cx):
    return elem_const(cx, 'one', 1)


def elem_const(cx, nm, v):
    t = cx.I.ty(cx.dty) if cx.dty is not None else None
    if t is not None and t['k'] in ('int', 'uint'):
        return pc(v)
    return cx.I.eop(nm)


@m('Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'slice::into_vec', 'Borrow::borrow_')
def _(cx, p):
    v = cx.I.load(cx.st, p)
    # an iterator over references is copied as it is
    return v


@m('Clone::clone_from')
def _(cx, p, q):
    st = cx.st.copy()
    cx.I.store(st, p, cx.I.load(st, q))
    return UNIT, st


@m('Into::into', 'From::from')
def _(cx, x):
    I = cx.I
    t = I.ty(cx.dty) if cx.dty is not None else {'k': '?'}

    def f(l):
        if l.k == 'P' and t['k'] in ('param', 'float', 'alias'):
            c = pconst(l)
            if c is None:
                return eapp('from', l)
            if I.mode == 'free':
                return eapp('from', l)
            return ec(c)
        if l.k == 'P':
            return l
        if l.k == 'E' and t['k'] in ('param', 'float', 'alias'):
            return l
        if l.k == 'Seq':
            return l
        if l.k == 'B' and t['k'] in ('int', 'uint'):
            return merge(l, P1, P0)
        if l.k == 'Agg' and t['k'] == 'adt' and l.a[0] == t['p']:
            return l
        return U('conversion to %s' % t.get('s'))
    if x.k == 'Ptr':
        d = cx.val(x)
        if d.k == 'Seq' and t['k'] == 'adt' and t['p'] in ('alloc::vec::Vec', 'alloc::boxed::Box'):
            return d
        if t['k'] in ('ref',):
            return x
    return gmap(x, f)


@m('Default::default')
def _(cx):
    t = cx.I.ty(cx.dty) if cx.dty is not None else {'k': '?'}
    if t['k'] in ('int', 'uint'):
        return P0
    if t['k'] == 'bool':
        return FALSE
    if t['k'] == 'float':
        return cx.I.eop('zero')
    if t['k'] == 'adt' and t['p'] == 'alloc::vec::Vec':
        return lit([])
    if t['k'] == 'adt' and t['p'] == OPT:
        return none_()
    if t['k'] == 'tuple' and not t['f']:
        return UNIT
    return U('default')


@m('Ord::min', 'cmp::min')
def _(cx, a, b):
    a, b = cx.val(a), cx.val(b)
    return gmap2(a, b, lambda x, y: simp(imin(x, y), cx.st.pc) if x.k == 'P' and y.k == 'P' else U('min'))


@m('Ord::max', 'cmp::max')
def _(cx, a, b):
    a, b = cx.val(a), cx.val(b)
    return gmap2(a, b, lambda x, y: simp(imax(x, y), cx.st.pc) if x.k == 'P' and y.k == 'P' else U('max'))


@m('Ord::clamp')
def _(cx, a, lo, hi):
    return gmap(a, lambda x: simp(imin(imax(x, lo), hi), cx.st.pc) if x.k == lo.k == hi.k == 'P' else U('clamp'))


ORD = 'core::cmp::Ordering'


@m('Ord::cmp')
def _(cx, a, b):
    a, b = cx.val(a), cx.val(b)
    if a.k == 'P' and b.k == 'P':
        return enum(ORD, [(0, lt(a, b), ()), (1, eqi(a, b), ()), (2, lt(b, a), ())])
    return U('cmp')


@m('PartialOrd::partial_cmp')
def _(cx, a, b):
    I = cx.I
    a, b = cx.val(a), cx.val(b)
    if a.k == 'P' and b.k == 'P':
        l, e, g = lt(a, b), eqi(a, b), lt(b, a)
    elif a.k == 'E' and b.k == 'E':
        l, g = I.erel('lt', a, b), I.erel('lt', b, a)
        e = I.erel('eq', a, b)
        e = band(e, bnot(l), bnot(g))
    else:
        return U('partial_cmp')
    anyc = bor(l, e, g)
    return some(enum(ORD, [(0, l, ()), (1, e, ()), (2, g, ())]), anyc)


@m('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def _(cx, o):
    want = {'is_lt': (0,), 'is_le': (0, 1), 'is_gt': (2,), 'is_ge': (1, 2), 'is_eq': (1,), 'is_ne': (0, 2)}[cx.n.split('::')[1]]
    if o.k != 'Enum':
        return cx.I.unkb(o)
    return bor(*[c for v, c, f in o.a[1] if v in want])


@m('Ordering::reverse')
def _(cx, o):
    if o.k != 'Enum':
        return U('reverse')
    return enum(ORD, [(2 - v, c, f) for v, c, f in o.a[1]])


# ---------------------------------------------------------------- panics
def explicit(kind):
    def f(cx, *args):
        cx.I.panic(cx.st, TRUE, kind, cx.span)
        return None, None
    return f


for _n in ('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_explicit', 'panicking::unreachable_display', 'panicking::panic_display', 'panicking::panic_str_2015', 'rt::begin_panic'):
    M[_n] = explicit('explicit')
M['panicking::assert_failed'] = explicit('assert')
M['panicking::panic_bounds_check'] = explicit('bounds')
for _n in ('process::exit', 'process::abort', 'intrinsics::abort'):
    M[_n] = explicit('exit')


@m('hint::must_use', 'hint::black_box', 'convert::identity', 'mem::drop_', 'ManuallyDrop::new', 'Wrapping::new')
def _(cx, x):
    return x


@m('mem::drop', 'mem::forget')
def _(cx, x):
    return UNIT


@m('mem::swap')
def _(cx, a, b):
    st = cx.st.copy()
    x, y = cx.I.load(st, a), cx.I.load(st, b)
    cx.I.store(st, a, y)
    cx.I.store(st, b, x)
    return UNIT, st


@m('mem::replace')
def _(cx, a, v):
    st = cx.st.copy()
    x = cx.I.load(st, a)
    cx.I.store(st, a, v)
    return x, st


@m('mem::take')
def _(cx, a):
    st = cx.st.copy()
    x = cx.I.load(st, a)
    if x.k == 'Seq':
        cx.I.store(st, a, lit([]))
    elif x.k == 'P':
        cx.I.store(st, a, P0)
    elif x.k == 'Enum' and x.a[0] == OPT:
        cx.I.store(st, a, none_())
    else:
        cx.I.store(st, a, U('default'))
    return x, st


@m('cmp::PartialEq_')
def _(cx, *a):
    return U('x')


# ---------------------------------------------------------------- pointers that are the same place
@m('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice',
   'array::as_slice', 'array::as_mut_slice', 'array::each_ref_', 'Box::as_ptr', 'slice::as_ref', 'Vec::leak', 'Box::leak')
def _(cx, p):
    v = cx.I.load(cx.st, p)
    # Box<T> / Vec<T> contents are inline: a pointer to the owner is a pointer to the contents
    return p


@m('Vec::into_boxed_slice', 'Box::new', 'Box::into_inner', 'Box::from', 'Vec::into_iter_', 'slice::into_boxed', 'Box::assume_init', 'boxed::box_assume_init_into_vec_unsafe')
def _(cx, x):
    return x


@m('Box::new_uninit', 'Box::new_uninit_slice')
def _(cx, *a):
    return U('uninitialised box')


@m('Box::write')
def _(cx, b, v):
    return v


# ---------------------------------------------------------------- Option
def opt_cases(v):
    """(cond none, cond some, payload) for an Option/Result-like value, G is merged already"""
    if v.k != 'Enum':
        return None
    n, s, p = FALSE, FALSE, None
    for vi, c, f in v.a[1]:
        if vi == 0:
            n = c
            p0 = f[0] if f else None
        else:
            s, p = c, (f[0] if f else None)
    return n, s, p


def split(cx_or_I, st, c):
    return st.assume(c), st.assume(bnot(c))


def branch(I, parts):
    """parts: [(state or None, fn(state) -> (value, state))]; merges the results"""
    outs = []
    for s, f in parts:
        if s is None:
            continue
        v, s2 = f(s)
        if s2 is None:
            continue
        s2 = s2.copy()
        s2.mem['$br'] = v
        outs.append(s2)
    from interp import merge_states
    mm = merge_states(outs)
    if mm is None:
        return None, None
    v = mm.mem.pop('$br')
    return v, mm


@m('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _(cx, o, *a):
    oc = opt_cases(o)
    if oc is None:
        return U('unwrap')
    n, s, p = oc
    st = cx.I.panic(cx.st, n, 'unwrap', cx.span)
    if st is None:
        return None, None
    return p, st


@m('Result::unwrap', 'Result::expect')
def _(cx, o, *a):
    if o.k != 'Enum':
        return U('unwrap')
    ok = [(c, f) for v, c, f in o.a[1] if v == 0]
    bad = [c for v, c, f in o.a[1] if v == 1]
    st = cx.I.panic(cx.st, bor(*bad) if bad else FALSE, 'unwrap', cx.span)
    if st is None or not ok:
        return None, None
    return ok[0][1][0], st


@m('Option::is_some', 'Option::is_none')
def _(cx, o):
    v = cx.val(o)
    oc = opt_cases(v)
    if oc is None:
        return cx.I.unkb(v)
    return oc[1] if cx.n.endswith('some') else oc[0]


@m('Option::unwrap_or')
def _(cx, o, d):
    oc = opt_cases(o)
    if oc is None:
        return U('unwrap_or')
    if oc[2] is None:
        return d
    return merge(oc[1], oc[2], d)


@m('Option::unwrap_or_else', 'Option::map_or_else_')
def _(cx, o, f):
    oc = opt_cases(o)
    if oc is None:
        return U('unwrap_or_else')
    return branch(cx.I, [(cx.st.assume(oc[1]), lambda s: (oc[2], s)),
                         (cx.st.assume(oc[0]), lambda s: cx.I.call_value(f, [], s, cx.dty, cx.span))])


@m('Option::map', 'Option::and_then', 'Option::map_or', 'Option::filter', 'Option::is_some_and', 'Option::is_none_or')
def _(cx, o, *r):
    I = cx.I
    oc = opt_cases(o)
    if oc is None:
        return U('option')
    n, s, p = oc
    k = cx.n.split('::')[1]
    f = r[-1]

    def some_(st):
        arg = p
        if k == 'filter':
            st = st.copy()
            arg = ptr(I.newroot(st, p))
        v, st = I.call_value(f, [arg], st, None, cx.span)
        if st is None:
            return None, None
        if k == 'map':
            v = some(v)
        if k == 'filter':
            v = some(p, v) if v.k == 'B' else U('filter')
        return v, st

    def none__(st):
        return {'map': none_(), 'and_then': none_(), 'map_or': r[0], 'filter': none_(), 'is_some_and': FALSE, 'is_none_or': TRUE}[k], st
    return branch(I, [(cx.st.assume(s) if p is not None else None, some_), (cx.st.assume(n), none__)])


@m('Option::copied', 'Option::cloned')
def _(cx, o):
    if o.k != 'Enum':
        return U('cloned')
    return enum(OPT, [(v, c, tuple(cx.I.load(cx.st, x) for x in f)) for v, c, f in o.a[1]])


@m('Option::as_ref', 'Option::as_mut')
def _(cx, o):
    v = cx.I.load(cx.st, o)
    if v.k != 'Enum':
        return U('as_ref')
    return enum(OPT, [(vi, c, (cx.I.sub_ptr(o, ('v', 1), ('f', 0)),) if vi == 1 else ()) for vi, c, f in v.a[1]])


@m('Option::take')
def _(cx, o):
    st = cx.st.copy()
    v = cx.I.load(st, o)
    cx.I.store(st, o, none_())
    return v, st


@m('Option::ok_or')
def _(cx, o, e):
    oc = opt_cases(o)
    if oc is None:
        return U('ok_or')
    return enum('core::result::Result', [(0, oc[1], (oc[2],)), (1, oc[0], (e,))])


@m('Try::branch')
def _(cx, o):
    if o.k != 'Enum':
        return U('?')
    CF = 'core::ops::control_flow::ControlFlow'
    cs = []
    for v, c, f in o.a[1]:
        if o.a[0] == OPT:
            cs.append((0, c, f) if v == 1 else (1, c, (none_(),)))
        else:
            cs.append((0, c, f) if v == 0 else (1, c, (enum(o.a[0], [(1, TRUE, f)]),)))
    return enum(CF, cs)


@m('FromResidual::from_residual')
def _(cx, r):
    return r


# ---------------------------------------------------------------- slices, vectors
def seqof(cx, p):
    """(pointer, Seq) of a Vec/slice/array reference"""
    v = cx.I.load(cx.st, p)
    while v.k == 'Ptr':
        p = v
        v = cx.I.load(cx.st, p)
    return p, v


def gseq(cx, v, f):
    return gmap(v, lambda l: f(l) if l.k == 'Seq' else U('sequence expected, got %s' % l.k))


@m('Vec::len', 'slice::len')
def _(cx, p):
    p, v = seqof(cx, p)
    return simp(gseq(cx, v, seqlen), cx.st.pc)


@m('Vec::is_empty', 'slice::is_empty')
def _(cx, p):
    p, v = seqof(cx, p)
    if any(l.k != 'Seq' for l, c in gcases(v)):
        return cx.I.unkb(v)
    r = FALSE
    for l, c in gcases(v):
        r = bor(r, band(c, eqi(seqlen(l), P0)))
    return r


@m('Vec::capacity')
def _(cx, p):
    return U('capacity')


@m('Vec::new', 'Vec::with_capacity', 'VecDeque::new')
def _(cx, *a):
    return lit([])


@m('Vec::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'Vec::shrink_to')
def _(cx, *a):
    return UNIT


@m('vec::from_elem')
def _(cx, x, n):
    return gmap(n, lambda l: mkseq(l, lambda p: x) if l.k == 'P' else U('length'))


def snoc(s, x, pcnd=TRUE):
    n = seqlen(s)
    if s.a[1] == 'lit':
        return lit(list(s.a[2]) + [x])
    k = fresh('k')
    kp = pa(k)
    return seqfn(padd(n, P1), merge(lt(kp, n), seqat(s, kp), x), k)


def concat(s, t):
    n, mm = seqlen(s), seqlen(t)
    if s.a[1] == 'lit' and t.a[1] == 'lit':
        return lit(list(s.a[2]) + list(t.a[2]))
    if pconst(n) == 0:
        return t
    if pconst(mm) == 0:
        return s

    def at(p):
        c = lt(p, n)
        if c is TRUE:
            return seqat(s, p)
        if c is FALSE:
            return seqat(t, psub(p, n))
        return merge(c, safe_at(s, p), safe_at(t, psub(p, n)))
    return mkseq(padd(n, mm), at)


def safe_at(s, p):
    """element at p where p may be out of range on some (excluded) inputs"""
    if s.a[1] == 'lit' and not s.a[2]:
        return None
    return seqat(s, p)


def upd_seq(cx, p, f):
    st = cx.st.copy()
    p2, v = seqof(cx, p)
    nv = gseq(cx, v, f)
    cx.I.store(st, p2, nv)
    return st


@m('Vec::push', 'VecDeque::push_back')
def _(cx, p, x):
    return UNIT, upd_seq(cx, p, lambda s: snoc(s, x))


@m('Vec::pop')
def _(cx, p):
    st = cx.st.copy()
    p2, v = seqof(cx, p)
    if v.k != 'Seq':
        cx.I.store(st, p2, U('pop'))
        return U('pop'), st
    n = seqlen(v)
    if pconst(n) == 0:
        return none_(), st
    c = bnot(eqi(n, P0))
    if pconst(n) is not None:
        cx.I.store(st, p2, sub_seq(v, P0, psub(n, P1)))
        return some(seqat(v, psub(n, P1))), st
    cx.I.store(st, p2, sub_seq(v, P0, psub(n, P1)) if entails(st.pc, c) else merge(c, sub_seq(v, P0, psub(n, P1)), v))
    return some(seqat(v, psub(n, P1)), c), st


def sub_seq(s, lo, n):
    if lo is P0 and n is seqlen(s):
        return s
    return mkseq(n, lambda p: seqat(s, padd(p, lo)))


@m('Vec::truncate')
def _(cx, p, n):
    pcd = cx.st.pc
    return UNIT, upd_seq(cx, p, lambda s: sub_seq(s, P0, simp(imin(seqlen(s), n), pcd)) if n.k == 'P' else U('truncate'))


@m('Vec::clear')
def _(cx, p):
    return UNIT, upd_seq(cx, p, lambda s: lit([]))


@m('Vec::append')
def _(cx, p, q):
    st = cx.st.copy()
    q2, t = seqof(cx, q)
    p2, s = seqof(cx, p)
    cx.I.store(st, p2, gmap2(s, t, lambda a, b: concat(a, b) if a.k == b.k == 'Seq' else U('append')))
    cx.I.store(st, q2, lit([]))
    return UNIT, st


@m('Vec::extend_from_slice')
def _(cx, p, q):
    _, t = seqof(cx, q)
    return UNIT, upd_seq(cx, p, lambda s: gmap(t, lambda b: concat(s, b) if b.k == 'Seq' else U('extend')))


@m('Vec::resize')
def _(cx, p, n, x):
    return resize(cx, p, n, lambda st: (x, st))


@m('Vec::resize_with')
def _(cx, p, n, f):
    I = cx.I
    p2, s = seqof(cx, p)
    whole = s.k == 'Seq' and n.k == 'P'
    m0 = seqlen(s) if whole else P0
    count = simp(psub(imax(n, m0), m0), cx.st.pc) if whole else INF
    st = cx.st.copy()
    fp = as_place(I, f, st)
    if pure_map(I, mkseq(count, lambda q: q), lambda st, e: I.call_value(fp, [], st, None, cx.span), st, cx.span) is not None:
        return resize(cx, p, n, lambda st: I.call_value(f, [], st, None, cx.span))
    if not whole:
        from interp import Giveup
        raise Giveup('resize_with with an effect')
    # every call counts
    new, st = map_seq(I, mkseq(count, lambda q: q), f, cx.st, cx.span, lambda e: [])
    if st is None:
        return None, None
    s = I.load(st, p2)
    I.store(st, p2, concat(sub_seq(s, P0, simp(imin(m0, n), st.pc)), new) if s.k == new.k == 'Seq' else U('resize'))
    return UNIT, st


@m('slice::fill_with')
def _(cx, p, f):
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        from interp import Giveup
        raise Giveup('fill_with')
    new, st = map_seq(cx.I, mkseq(seqlen(s), lambda q: q), f, cx.st, cx.span, lambda e: [])
    if st is None:
        return None, None
    cx.I.store(st, p2, new)
    return UNIT, st


def resize(cx, p, n, mkx):
    I = cx.I
    p2, v = seqof(cx, p)
    x, st = mkx(cx.st.copy())
    if st is None:
        return None, None

    def f(s):
        if n.k != 'P':
            return U('resize')
        m0 = seqlen(s)
        if pconst(n) is None or pconst(m0) is None:
            def at(q):
                c = lt(q, m0)
                y = safe_at(s, q)
                return x if c is FALSE or y is None else merge(c, y, x)
            return mkseq(n, at)
        return mkseq(n, lambda q: seqat(s, q) if pconst(q) is not None and pconst(q) < pconst(m0) else (x if pconst(m0) == 0 or pconst(q) is not None else merge(lt(q, m0), seqat(s, q), x)))
    I.store(st, p2, gseq(cx, v, f))
    return UNIT, st


@m('Vec::insert')
def _(cx, p, i, x):
    p2, v = seqof(cx, p)
    if v.k != 'Seq' or i.k != 'P':
        return U('insert'), upd_seq(cx, p, lambda s: U('insert'))
    n = seqlen(v)
    st = cx.I.panic(cx.st, lt(n, i), 'bounds', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    r = concat(snoc(sub_seq(v, P0, i), x), sub_seq(v, i, psub(n, i)))
    cx.I.store(st, p2, r)
    return UNIT, st


@m('Vec::remove', 'Vec::swap_remove')
def _(cx, p, i):
    p2, v = seqof(cx, p)
    if v.k != 'Seq' or i.k != 'P':
        return U('remove'), upd_seq(cx, p, lambda s: U('remove'))
    n = seqlen(v)
    st = cx.I.panic(cx.st, le(n, i), 'bounds', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    if cx.n.endswith('swap_remove'):
        r = sub_seq(seqset(v, i, seqat(v, psub(n, P1))), P0, psub(n, P1))
    else:
        r = concat(sub_seq(v, P0, i), sub_seq(v, padd(i, P1), psub(psub(n, i), P1)))
    cx.I.store(st, p2, r)
    return seqat(v, i), st


@m('Vec::split_off')
def _(cx, p, i):
    p2, v = seqof(cx, p)
    if v.k != 'Seq' or i.k != 'P':
        return U('split_off'), upd_seq(cx, p, lambda s: U('split_off'))
    n = seqlen(v)
    st = cx.I.panic(cx.st, lt(n, i), 'bounds', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    cx.I.store(st, p2, sub_seq(v, P0, i))
    return sub_seq(v, i, psub(n, i)), st


@m('Vec::drain')
def _(cx, p, rg):
    p2, v = seqof(cx, p)
    if v.k != 'Seq':
        return U('drain'), upd_seq(cx, p, lambda s: U('drain'))
    n = seqlen(v)
    r = range_of(cx, rg, n)
    if r is None or any(x.k != 'P' for x in r):
        return U('drain'), upd_seq(cx, p, lambda s: U('drain'))
    lo, hi = r
    st = cx.I.panic(cx.st, bor(lt(hi, lo), lt(n, hi)), 'slice', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    cx.I.store(st, p2, concat(sub_seq(v, P0, lo), sub_seq(v, hi, psub(n, hi))))
    return mkit(sub_seq(v, lo, psub(hi, lo)), P0, psub(hi, lo)), st


@m('slice::swap', 'Vec::swap')
def _(cx, p, i, j):
    p2, v = seqof(cx, p)
    if v.k != 'Seq' or i.k != 'P' or j.k != 'P':
        return UNIT, upd_seq(cx, p, lambda s: U('swap'))
    n = seqlen(v)
    st = cx.I.panic(cx.st, bor(le(n, i), le(n, j)), 'bounds', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    a, b = seqat(v, i), seqat(v, j)
    cx.I.store(st, p2, seqset(seqset(v, i, b), j, a))
    return UNIT, st


@m('slice::reverse', 'Vec::reverse')
def _(cx, p):
    def f(s):
        n = seqlen(s)
        return mkseq(n, lambda q: seqat(s, psub(psub(n, P1), q)))
    return UNIT, upd_seq(cx, p, f)


@m('slice::fill')
def _(cx, p, x):
    return UNIT, upd_seq(cx, p, lambda s: mkseq(seqlen(s), lambda q: x))


@m('slice::copy_from_slice', 'slice::clone_from_slice')
def _(cx, p, q):
    p2, s = seqof(cx, p)
    q2, t = seqof(cx, q)
    if s.k != 'Seq' or t.k != 'Seq':
        return UNIT, upd_seq(cx, p, lambda s: U('copy'))
    st = cx.I.panic(cx.st, bnot(eqi(seqlen(s), seqlen(t))), 'slice', cx.span)
    if st is None:
        return None, None
    st = st.copy()
    cx.I.store(st, p2, mkseq(seqlen(s), lambda k: seqat(t, k)))
    return UNIT, st


@m('slice::contains')
def _(cx, p, x):
    p2, s = seqof(cx, p)
    v = cx.val(x)
    if s.k != 'Seq':
        return cx.I.unkb(s)
    return exists_in(cx.I, s, lambda e: veq(cx.I, e, v, cx.st))


def exists_in(I, s, f):
    if s.a[1] == 'lit':
        return bor(*[f(e) for e in s.a[2]])
    k = fresh('k')
    return exists(k, band(lt(pa(k), seqlen(s)), f(seqat(s, pa(k)))))


@m('slice::concat', 'Join::concat', 'Concat::concat')
def _(cx, p):
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        return U('concat')
    r = flatten_seq(cx.I, s, cx.st)
    return r if r is not None else U('concat')


def flatten_seq(I, s, st):
    """Seq of Seq -> Seq, or None"""
    n = seqlen(s)
    if s.a[1] == 'lit':
        r = lit([])
        for x in s.a[2]:
            x = I.deref(st, x)
            if x.k != 'Seq' or pconst(seqlen(x)) is None and False:
                return None
            r = concat(r, x)
        return r
    k = fresh('k')
    row = I.deref(st, seqat(s, pa(k)))
    if row.k != 'Seq':
        return None
    L = simp(seqlen(row), band(st.pc, lt(pa(k), n)))
    if k in L.deps:
        return None
    q = fresh('q')
    body = seqat(row, pa(q))
    tot = pmul(n, L)
    return mkseq(tot, lambda p: subst(body, {k: idiv(p, L), q: imod(p, L)}))


# indexing
def range_of(cx, r, n):
    """(lo, hi) of a range value over a length n"""
    if r.k != 'Agg':
        return None
    t = r.a[0]
    f = r.a[1]
    if any(x is None or x.k != 'P' and not (x.k == 'G' and all(l.k == 'P' for l, _ in x.a[0])) for x in f if x is None or x.k != 'B'):
        return None
    if not isinstance(t, str):
        return None
    t = t.split('::')[-1]
    if t == 'Range':
        return f[0], f[1]
    if t == 'RangeTo':
        return P0, f[0]
    if t == 'RangeFrom':
        return f[0], n
    if t == 'RangeFull':
        return P0, n
    if t == 'RangeInclusive':
        return f[0], gmap(f[1], lambda l: padd(l, P1))
    if t == 'RangeToInclusive':
        return P0, gmap(f[0], lambda l: padd(l, P1))
    return None


def sub_of(I, p, lo, hi, pcond):
    """(pointer to the part, condition that the range is invalid is computed by the caller)"""
    one = lambda a, b: I.sub_ptr(p, ('sub', a, simp(psub(b, a), pcond)))
    return gmap2(lo, hi, one) if lo.k == 'G' or hi.k == 'G' else one(lo, hi)


def bad_range(lo, hi, n):
    from interp import gmap2b
    f = lambda a, b: bor(lt(b, a), lt(n, b))
    return gmap2b(lo, hi, f) if lo.k == 'G' or hi.k == 'G' else f(lo, hi)


@m('Index::index', 'IndexMut::index_mut')
def _(cx, p, i):
    I = cx.I
    p2, s = seqof(cx, p)
    i = simp(i, cx.st.pc)
    st = cx.st
    if i.k == 'G' or s.k == 'G':
        from interp import gmap2b
        bad = gmap2b(s, i, lambda a, b: le(seqlen(a), b) if a.k == 'Seq' and b.k == 'P' else FALSE)
        st = I.panic(st, bad, 'bounds', cx.span)
        if st is None:
            return None, None
        return gmap(i, lambda l: I.sub_ptr(p2, ('i', l)) if l.k == 'P' else U('index')), st
    if s.k != 'Seq':
        return U('index of %s' % s.k)
    n = seqlen(s)
    if i.k == 'P':
        st = I.panic(st, le(n, i), 'bounds', cx.span)
        if st is None:
            return None, None
        return I.sub_ptr(p2, ('i', i)), st
    r = range_of(cx, i, n)
    if r is None:
        return U('index')
    lo, hi = r
    st = I.panic(st, bad_range(lo, hi, n), 'slice', cx.span)
    if st is None:
        return None, None
    if lo is P0 and hi is n:
        return p2, st
    return sub_of(I, p2, lo, hi, st.pc), st


@m('slice::get', 'Vec::get', 'slice::get_mut')
def _(cx, p, i):
    I = cx.I
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        return U('get')
    n = seqlen(s)
    if i.k == 'P':
        return some(I.sub_ptr(p2, ('i', i)), lt(i, n))
    r = range_of(cx, i, n)
    if r is None:
        return U('get')
    lo, hi = r
    return some(sub_of(I, p2, lo, hi, TRUE), bnot(bad_range(lo, hi, n)))


@m('slice::get_unchecked', 'slice::get_unchecked_mut')
def _(cx, p, i):
    p2, s = seqof(cx, p)
    if s.k != 'Seq' or i.k != 'P':
        return U('get_unchecked')
    return cx.I.sub_ptr(p2, ('i', i))


@m('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def _(cx, p):
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        return U('first')
    n = seqlen(s)
    if pconst(n) == 0:
        return none_()
    i = P0 if 'first' in cx.n else psub(n, P1)
    return some(cx.I.sub_ptr(p2, ('i', i)), bnot(eqi(n, P0)))


@m('slice::split_first', 'slice::split_last')
def _(cx, p):
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        return U('split_first')
    n = seqlen(s)
    if pconst(n) == 0:
        return none_()
    r = psub(n, P1)
    if 'first' in cx.n:
        t = agg('tuple', [cx.I.sub_ptr(p2, ('i', P0)), cx.I.sub_ptr(p2, ('sub', P1, r))])
    else:
        t = agg('tuple', [cx.I.sub_ptr(p2, ('i', r)), cx.I.sub_ptr(p2, ('sub', P0, r))])
    return some(t, bnot(eqi(n, P0)))


@m('slice::split_at', 'slice::split_at_mut')
def _(cx, p, i):
    p2, s = seqof(cx, p)
    if s.k != 'Seq' or i.k != 'P':
        return U('split_at')
    n = seqlen(s)
    st = cx.I.panic(cx.st, lt(n, i), 'slice', cx.span)
    if st is None:
        return None, None
    return agg('tuple', [cx.I.sub_ptr(p2, ('sub', P0, i)), cx.I.sub_ptr(p2, ('sub', i, psub(n, i)))]), st


def sub_or_whole(I, p, lo, n):
    return I.sub_ptr(p, ('sub', lo, n))


@m('slice::chunks', 'slice::chunks_exact', 'slice::chunks_mut', 'slice::chunks_exact_mut')
def _(cx, p, w):
    p2, s = seqof(cx, p)
    if s.k != 'Seq' or w.k != 'P':
        return U('chunks')
    n = seqlen(s)
    st = cx.I.panic(cx.st, eqi(w, P0), 'explicit', cx.span)
    if st is None:
        return None, None
    q = idiv(n, w) if 'exact' in cx.n else idiv(psub(padd(n, w), P1), w)
    q = simp(q, st.pc)
    items = mkseq(q, lambda k: cx.I.sub_ptr(p2, ('sub', pmul(k, w), w if 'exact' in cx.n or mul_of(n, w) else imin(w, psub(n, pmul(k, w))))))
    return mkit(items, P0, q), st


def mul_of(n, w):
    q, r = terms._divsplit(n, w)
    return q is not None and r is P0


@m('slice::windows')
def _(cx, p, w):
    p2, s = seqof(cx, p)
    if s.k != 'Seq' or w.k != 'P':
        return U('windows')
    n = seqlen(s)
    st = cx.I.panic(cx.st, eqi(w, P0), 'explicit', cx.span)
    if st is None:
        return None, None
    c = imax(P0, padd(psub(n, w), P1))
    c = simp(c, st.pc)
    items = mkseq(c, lambda k: cx.I.sub_ptr(p2, ('sub', k, w)))
    return mkit(items, P0, c), st


@m('slice::starts_with')
def _(cx, p, q):
    return cx.I.unkb(agg('tuple', [p, q]))


# ---------------------------------------------------------------- arrays
@m('array::map')
def _(cx, a, f):
    if a.k != 'Seq':
        return U('map of %s' % a.k)
    return map_seq(cx.I, a, f, cx.st, cx.span)


@m('array::from_fn')
def _(cx, f):
    I = cx.I
    t = I.ty(cx.dty)
    n = I.constp(t['n']) if t['k'] == 'array' else None
    if n is None:
        return U('from_fn')
    return map_seq(I, mkseq(n, lambda p: p), f, cx.st, cx.span)


@m('iter::from_fn_array')
def _(cx, f):
    return U('x')


@m('array::each_ref', 'array::each_mut')
def _(cx, p):
    p2, s = seqof(cx, p)
    if s.k != 'Seq':
        return U('each_ref')
    return mkseq(seqlen(s), lambda k: cx.I.sub_ptr(p2, ('i', k)))


def pure_map(I, seq, f, st, span, lo=P0):
    """applies f to every element if it has no side effect: (Seq, state) or None.
    f: callable(state, element) -> (value, state)"""
    n = seqlen(seq)
    k = fresh('k')
    kp = pa(k)
    g = st.assume(lt(kp, n))
    if g is None:
        return lit([]), st
    np, ne, nn = len(I.panics), len(I.events), len(I.notes)
    nu = dict(I.unknown_calls)
    before = dict(g.mem)
    I.loopidx.append(kp)
    try:
        v, s2 = f(g.copy(), simp(seqat(seq, kp), g.pc))
    finally:
        I.loopidx.pop()
    ok = all(e.kind == 'panic' or I.reads and e.kind in ('read', 'loop') for e in I.events[ne:])
    if s2 is not None and ok:
        for r, x in before.items():
            if s2.mem.get(r) is not x:
                ok = False
                break
        if ok and v is not None:
            from interp import ptr_roots
            for r in ptr_roots(v):
                if r not in before:
                    # constants are fine
                    if not (isinstance(r, str) and r[0] in 'kc'):
                        ok = False
    if not ok:
        del I.panics[np:], I.events[ne:], I.notes[nn:]
        I.unknown_calls = nu
        return None
    if I.reads:
        from interp import Ev
        rd = [e for e in I.events[ne:] if e.kind != 'panic']
        if rd:
            I.events[ne:] = [e for e in I.events[ne:] if e.kind == 'panic'] + [Ev(st.pc, 'loop', (k, n, TRUE, rd, [], 'map'))]
    pn = FALSE
    for p in I.panics[np:]:
        pn = bor(pn, p.cond)
        p.cond = exists(k, p.cond) if k in p.cond.deps else p.cond
    for e in I.events[ne:]:
        if e.kind == 'panic':
            e.cond = exists(k, e.cond) if k in e.cond.deps else e.cond
    out = st
    if len(I.panics) > np:
        # restrict() needs only the part beyond the path condition
        allok = bnot(exists(k, restrict(pn, st.pc) if k in pn.deps else pn))
        allok = forall(k, bnot(band(lt(kp, n), pn))) if k in pn.deps else bnot(pn)
        out = st.assume(allok)
        if out is None:
            return U('always panics'), None
    if v is None:
        # panics for every element: survives only when there is none
        out = st.assume(eqi(n, P0))
        return lit([]), out
    for r, x in s2.mem.items():
        if isinstance(r, str) and r[0] in 'kc' and r not in out.mem:
            out = out.copy() if out is st else out
            out.mem[r] = x
    if pconst(n) is not None and pconst(n) <= 6:
        return lit([simp(subst(v, {k: pc(i)}), out.pc) for i in range(pconst(n))]), out
    return seqfn(n, v, k), out


def map_seq(I, a, f, st, span, args=lambda e: [e]):
    """array map with a possibly stateful closure"""
    n = seqlen(a)
    st = st.copy()
    fp = as_place(I, f, st)
    call = lambda s, e: I.call_value(fp, args(e), s, None, span)
    c = pconst(n)
    if c is None or not I.concrete:
        r = pure_map(I, a, call, st, span)
        if r is not None:
            return r
    if c is not None and (c <= 4 or I.concrete and c <= 64):
        out = []
        I.loopidx.append(P0)
        try:
            for i in range(c):
                I.loopidx[-1] = pc(i)
                v, st = I.call_value(fp, args(seqat(a, pc(i))), st, None, span)
                if st is None:
                    return None, None
                out.append(v)
        finally:
            I.loopidx.pop()
        return lit(out), st
    # stateful: run as a loop that fills a vector
    it = ptr(I.newroot(st, mkit(a, P0, n)))
    acc = ptr(I.newroot(st, lit([])))

    def body(s, e):
        v, s = I.call_value(fp, args(e), s, None, span)
        if s is None:
            return None
        s = s.copy()
        I.store(s, acc, snoc(I.load(s, acc), v) if I.load(s, acc).k == 'Seq' else U('map'))
        return s
    st = for_each(I, it, st, body, 'map')
    if st is None:
        return None, None
    return simp(I.load(st, acc), st.pc), st


def as_place(I, f, st):
    """a pointer to the function value so that its captured state persists"""
    d = f
    if d.k == 'Ptr':
        return f
    r = I.newroot(st, f)
    return ptr(r)


# ---------------------------------------------------------------- iterators
def mkit(items, lo, hi):
    return agg(('it', 'idx'), [items, lo, hi])


def is_it(v):
    return v.k == 'Agg' and type(v.a[0]) is tuple and v.a[0][0] == 'it'


def to_it(I, st, v):
    """IntoIterator: iterator value or None"""
    if v.k == 'Ptr':
        d = I.load(st, v)
        n = 0
        while d.k == 'Ptr' and n < 5:
            v, d = d, I.load(st, d)
            n += 1
        if d.k == 'Seq':
            # by reference: items are places
            n = seqlen(d)
            vv = v
            return mkit(mkseq(n, lambda p: I.sub_ptr(vv, ('i', p))), P0, n)
        if is_it(d) or (d.k == 'Agg' and isinstance(d.a[0], str) and d.a[0].startswith('core::ops::range')):
            return agg(('it', 'ref'), [v])
        return None
    if is_it(v):
        return v
    if v.k == 'Seq':
        return mkit(v, P0, seqlen(v))
    if v.k == 'Agg' and isinstance(v.a[0], str) and v.a[0].startswith('core::ops::range::Range'):
        f = v.a[1]
        t = v.a[0].split('::')[-1]
        if t == 'Range' and f[0].k == 'P' and f[1].k == 'P':
            return rng_it(f[0], f[1], st)
        if t == 'RangeInclusive' and f[0].k == 'P' and f[1].k == 'P':
            return rng_it(f[0], padd(f[1], P1), st)
        if t == 'RangeFrom' and f[0].k == 'P':
            k = fresh('k')
            return mkit(seqfn(INF, padd(f[0], pa(k)), k), P0, INF)
        return None
    if v.k == 'Enum' and v.a[0] == OPT:
        oc = opt_cases(v)
        if oc[0] is FALSE:
            return mkit(lit([oc[2]]), P0, P1)
        if oc[1] is FALSE:
            return mkit(lit([]), P0, P0)
        return None
    if v.k == 'G':
        return None
    return None


def rng_it(lo, hi, st):
    n = psub(hi, lo)
    if not (evid_nn(n) or entails(st.pc, ge0(n))):
        c = pconst(n)
        n = P0 if c is not None and c < 0 else simp(imax(P0, n), st.pc)
    items = mkseq(n, lambda p: padd(lo, p))
    return mkit(items, P0, n)


def rest(it):
    """(items from the current position, count)"""
    items, lo, hi = it.a[1]
    if lo is P0:
        return items, hi
    n = INF if hi is INF else psub(hi, lo)
    if items.k != 'Seq':
        return items, n
    if n is INF:
        k = fresh('k')
        return seqfn(INF, seqat(items, padd(pa(k), lo)), k), INF
    return mkseq(n, lambda p: seqat(items, padd(p, lo))), n


def idx(it):
    return it is not None and is_it(it) and it.a[0][1] == 'idx' and all(x.k != 'U' for x in it.a[1]) and it.a[1][0].k == 'Seq' and it.a[1][1].k == 'P' and it.a[1][2].k == 'P'


def mn(a, b, st):
    if a is INF:
        return b
    if b is INF:
        return a
    return simp(imin(a, b), st.pc)


@m('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'array::iter', 'Option::into_iter', 'Option::iter')
def _(cx, v):
    it = to_it(cx.I, cx.st, v)
    if it is None:
        if v.k == 'G':
            r = None
            for l, c in v.a[0]:
                x = to_it(cx.I, cx.st, l)
                if x is None:
                    return U('iterator of %s' % l.k)
                r = x if r is None else merge(c, x, r)
            return r
        if v.k == 'Agg' and isinstance(v.a[0], str) and v.a[0].startswith('core::ops::range'):
            return v
        return U('iterator of %s' % v.k)
    return it


def take_it(cx, v):
    """iterator passed by value"""
    I = cx.I
    for im in cx.c.get('imp', ()):
        if short(im['m']) != 'IntoIterator::into_iter' or im['key'] not in I.fns:
            continue
        t = I.ty(im['st'])
        isref = t['k'] == 'ref'
        if isref:
            t = I.ty(t['e'])
        d = I.load(cx.st, v) if isref and v.k == 'Ptr' else v
        if d.k == 'Agg' and d.a[0] == t.get('p') and isref == (v.k == 'Ptr'):
            r, s = I.run_fn(im['key'], [v], cx.st)
            if s is None:
                return None
            cx.st.mem.update(s.mem)
            v = r
            break
    return to_it(I, cx.st, v)


def U_it(cx, *vs):
    return U('iterator ' + cx.n)


@m('Iterator::by_ref')
def _(cx, p):
    return p


@m('Iterator::zip', 'iter::zip')
def _(cx, a, b):
    x, y = take_it(cx, a), take_it(cx, b)
    if idx(x) and idx(y):
        xs, n = rest(x)
        ys, mm = rest(y)
        c = mn(n, mm, cx.st)
        if c is INF:
            k = fresh('k')
            return mkit(seqfn(INF, agg('tuple', [seqat(xs, pa(k)), seqat(ys, pa(k))]), k), P0, INF)
        return mkit(mkseq(c, lambda p: agg('tuple', [seqat(xs, p), seqat(ys, p)])), P0, c)
    if x is None or y is None:
        return U_it(cx)
    return agg(('it', 'zip'), [x, y])


@m('Iterator::enumerate')
def _(cx, a):
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        if n is INF:
            k = fresh('k')
            return mkit(seqfn(INF, agg('tuple', [pa(k), seqat(xs, pa(k))]), k), P0, INF)
        return mkit(mkseq(n, lambda p: agg('tuple', [p, seqat(xs, p)])), P0, n)
    return agg(('it', 'enum'), [x, P0]) if x is not None else U_it(cx)


@m('Iterator::rev')
def _(cx, a):
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        if n is not INF:
            return mkit(mkseq(n, lambda p: seqat(xs, psub(psub(n, P1), p))), P0, n)
    return U_it(cx)


@m('Iterator::take')
def _(cx, a, n):
    if n.k == 'G':
        n = simp(n, cx.st.pc)
        cx.I.split(cx.st, [n])
    x = take_it(cx, a)
    if idx(x) and n.k == 'P':
        xs, mm = rest(x)
        c = mn(n, mm, cx.st)
        return mkit(mkseq(c, lambda p: seqat(xs, p)) if mm is INF else xs, P0, c)
    if x is not None and is_it(x) and x.a[0][1] == 'cycle' and n.k == 'P':
        s = x.a[1][0]
        L = seqlen(s)
        if entails(cx.st.pc, ge0(psub(L, P1))):
            return mkit(mkseq(n, lambda p: seqat(s, simp(imod(p, L), cx.st.pc))), P0, n)
    if x is not None and is_it(x) and x.a[0][1] == 'gen' and n.k == 'P' and not cx.I.impure:
        st = cx.st.copy()
        fp = as_place(cx.I, x.a[1][0], st)
        r = pure_map(cx.I, mkseq(n, lambda p: UNIT), lambda s_, e: cx.I.call_value(fp, [], s_, None, cx.span), st, cx.span)
        if r is not None:
            if r[1] is None:
                return None, None
            return mkit(r[0], P0, seqlen(r[0])), r[1]
    return agg(('it', 'take'), [x, n]) if x is not None else U_it(cx)


@m('Iterator::skip')
def _(cx, a, n):
    if n.k == 'G':
        n = simp(n, cx.st.pc)
        cx.I.split(cx.st, [n])
    x = take_it(cx, a)
    if idx(x) and n.k == 'P':
        items, lo, hi = x.a[1]
        nl = padd(lo, n)
        if hi is not INF:
            nl = mn(nl, hi, cx.st)
        return mkit(*((rest(mkit(items, nl, hi))[0], P0, rest(mkit(items, nl, hi))[1])))
    return U_it(cx)


@m('Iterator::step_by')
def _(cx, a, s):
    x = take_it(cx, a)
    if idx(x) and s.k == 'P':
        st = cx.I.panic(cx.st, eqi(s, P0), 'explicit', cx.span)
        if st is None:
            return None, None
        xs, n = rest(x)
        if n is INF:
            return U_it(cx), st
        c = simp(idiv(psub(padd(n, s), P1), s), st.pc)
        return mkit(mkseq(c, lambda p: seqat(xs, pmul(p, s))), P0, c), st
    return U_it(cx)


@m('Iterator::chain')
def _(cx, a, b):
    x, y = take_it(cx, a), take_it(cx, b)
    if idx(x) and idx(y):
        xs, n = rest(x)
        ys, mm = rest(y)
        if n is not INF:
            xs2 = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
            if mm is INF:
                k = fresh('k')
                kp = pa(k)
                return mkit(seqfn(INF, merge(lt(kp, n), safe_at(xs, kp), seqat(ys, psub(kp, n))), k), P0, INF)
            ys2 = ys if seqlen(ys) is mm else sub_seq(ys, P0, mm)
            s = concat(xs2, ys2)
            return mkit(s, P0, padd(n, mm))
    return U_it(cx)


@m('Iterator::cycle')
def _(cx, a):
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        xs = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
        return agg(('it', 'cycle'), [xs, P0])
    return U_it(cx)


@m('iter::repeat', 'repeat::repeat')
def _(cx, v):
    k = fresh('k')
    return mkit(seqfn(INF, v, k), P0, INF)


@m('iter::once', 'once::once')
def _(cx, v):
    return mkit(lit([v]), P0, P1)


@m('iter::empty', 'empty::empty')
def _(cx):
    return mkit(lit([]), P0, P0)


@m('iter::repeat_n', 'repeat_n::repeat_n')
def _(cx, v, n):
    if n.k != 'P':
        return U_it(cx)
    return mkit(mkseq(n, lambda p: v), P0, n)


@m('iter::repeat_with', 'repeat_with::repeat_with')
def _(cx, f):
    return agg(('it', 'gen'), [f])


@m('Iterator::cloned', 'Iterator::copied')
def _(cx, a):
    I = cx.I
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        st = cx.st
        ld = lambda v: I.load(st, v)
        if n is INF:
            k = fresh('k')
            return mkit(seqfn(INF, ld(seqat(xs, pa(k))), k), P0, INF)
        return mkit(mkseq(n, lambda p: ld(seqat(xs, p))), P0, n)
    return agg(('it', 'cloned'), [x]) if x is not None else U_it(cx)


@m('Iterator::map')
def _(cx, a, f):
    I = cx.I
    x = take_it(cx, a)
    if x is None:
        return U_it(cx)
    st = cx.st.copy()
    fp = as_place(I, f, st)
    if idx(x) and not (I.impure and refs_impure(I, st, f)):
        xs, n = rest(x)
        if n is not INF:
            s = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
        else:
            s = xs
        r = pure_map(I, s, lambda s_, e: I.call_value(fp, [e], s_, None, cx.span), st, cx.span)
        if r is not None:
            v, st2 = r
            if st2 is None:
                return None, None
            return mkit(v, P0, seqlen(v)), st2
    return agg(('it', 'map'), [x, fp]), st


def refs_impure(I, st, f):
    return False


@m('Iterator::inspect')
def _(cx, a, f):
    x = take_it(cx, a)
    return agg(('it', 'inspect'), [x, as_place(cx.I, f, cx.st)]) if x is not None else U_it(cx)


@m('Iterator::filter', 'Iterator::take_while', 'Iterator::skip_while', 'Iterator::filter_map', 'Iterator::map_while')
def _(cx, a, f):
    x = take_it(cx, a)
    if x is None:
        return U_it(cx)
    st = cx.st.copy()
    return agg(('it', cx.n.split('::')[1]), [x, as_place(cx.I, f, st)]), st


@m('Iterator::scan')
def _(cx, a, s0, f):
    x = take_it(cx, a)
    if x is None:
        return U_it(cx)
    st = cx.st.copy()
    return agg(('it', 'scan'), [x, ptr(cx.I.newroot(st, s0)), as_place(cx.I, f, st)]), st


@m('Iterator::peekable', 'Iterator::fuse')
def _(cx, a):
    x = take_it(cx, a)
    return x if x is not None and cx.n.endswith('fuse') else U_it(cx)


@m('Iterator::flat_map')
def _(cx, a, f):
    I = cx.I
    x = take_it(cx, a)
    if not idx(x):
        return U_it(cx)
    st = cx.st.copy()
    fp = as_place(I, f, st)
    xs, n = rest(x)
    if n is INF:
        return U_it(cx)
    s = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
    if pconst(n) is not None:
        outs = []
        for i in range(pconst(n)):
            v, st = I.call_value(fp, [seqat(s, pc(i))], st, None, cx.span)
            if st is None:
                return None, None
            outs.append(v)
        return flat_items(cx, outs, st), st
    r = pure_map(I, s, lambda s_, e: I.call_value(fp, [e], s_, None, cx.span), st, cx.span)
    if r is None or r[1] is None:
        return U_it(cx), st
    return flat(cx, r[0], r[1]), r[1]


@m('Iterator::flatten')
def _(cx, a):
    x = take_it(cx, a)
    if not idx(x):
        return U_it(cx)
    xs, n = rest(x)
    if n is INF:
        return U_it(cx)
    s = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
    if s.a[1] == 'lit':
        return flat_items(cx, s.a[2], cx.st)
    return flat(cx, s, cx.st)


def flat_items(cx, vs, st):
    r = lit([])
    for v in vs:
        it = to_it(cx.I, st, v)
        if not idx(it):
            return U_it(cx)
        xs, n = rest(it)
        r = concat(r, xs if seqlen(xs) is n else sub_seq(xs, P0, n))
    return mkit(r, P0, seqlen(r))


def flat(cx, s, st):
    """Seq of iterables -> iterator"""
    n = seqlen(s)
    if pconst(n) is not None and s.a[1] == 'lit':
        return flat_items(cx, s.a[2], st)
    k = fresh('k')
    q0 = band(st.pc, lt(pa(k), n))
    it = to_it(cx.I, st, simp(seqat(s, pa(k)), q0))
    if not idx(it):
        return U_it(cx)
    xs, L = rest(it)
    L = simp(L, q0)
    if L.k != 'P' or k in L.deps or L is INF:
        return U_it(cx)
    q = fresh('q')
    body = seqat(xs, pa(q))
    tot = pmul(n, L)
    sq = mkseq(tot, lambda p: subst(body, {k: idiv(p, L), q: imod(p, L)}))
    return mkit(sq, P0, tot)


# next -------------------------------------------------------------
def it_next(I, st, p, span=''):
    """next on the iterator at pointer p: (Option value, state)"""
    v = I.load(st, p)
    if v.k == 'G':
        parts = []
        for l, c in v.a[0]:
            def f(s, l=l):
                s = s.copy()
                I.store(s, p, l)
                return it_next(I, s, p, span)
            parts.append((st.assume(c), f))
        return branch(I, parts)
    if v.k == 'Agg' and isinstance(v.a[0], str) and v.a[0].startswith('core::ops::range::Range'):
        t = v.a[0].split('::')[-1]
        st = st.copy()
        a = v.a[1][0]
        if t == 'Range':
            b = v.a[1][1]
            if a.k == 'P' and b.k == 'P':
                c = simpb(lt(a, b), st.pc)
                I.store(st, p, agg(v.a[0], [merge(c, padd(a, P1), a), b]))
                return some(a, c), st
            a, b = simp(a, st.pc), simp(b, st.pc)
            from interp import gmap2b
            if all(l.k == 'P' for l, c in gcases(a)) and all(l.k == 'P' for l, c in gcases(b)):
                c = simpb(gmap2b(a, b, lt), st.pc)
                I.store(st, p, agg(v.a[0], [merge(c, gmap(a, lambda l: padd(l, P1)), a), b]))
                return some(a, c), st
        if t == 'RangeFrom' and a.k == 'P':
            I.store(st, p, agg(v.a[0], [padd(a, P1)]))
            return some(a), st
        if t == 'RangeInclusive' and a.k == 'P' and v.a[1][1].k == 'P':
            it = to_it(I, st, v)
            I.store(st, p, it)
            return it_next(I, st, p, span)
        if t == 'RangeInclusive' and all(l.k == 'P' for x in v.a[1][:2] for l, c in gcases(x)):
            I.store(st, p, agg(v.a[0][:-len('Inclusive')], [a, gmap(v.a[1][1], lambda l: padd(l, P1))]))
            return it_next(I, st, p, span)
    if v.k == 'Seq':
        it = to_it(I, st, v)
        st = st.copy()
        I.store(st, p, it)
        return it_next(I, st, p, span)
    if not is_it(v):
        return U('next of %s' % v.k), st
    kind = v.a[0][1]
    f = v.a[1]
    if kind == 'idx':
        items, lo, hi = f
        lo = simp(lo, st.pc)
        if items.k != 'Seq' or any(l.k != 'P' for l, c in gcases(lo)) or any(l.k != 'P' for l, c in gcases(hi)):
            return U('next'), st
        from interp import gmap2b
        c = TRUE if hi is INF else simpb(gmap2b(lo, hi, lt), st.pc)
        st = st.copy()
        if c is FALSE:
            return none_(), st
        I.store(st, p, mkit(items, merge(c, gmap(lo, lambda l: padd(l, P1)), lo), hi))
        e = gmap(lo, lambda l: seqat(items, l))
        if e is not None and e.k != 'Ptr' and e.deps:
            e = simp(e, band(st.pc, c))
        return some(e, c), st
    if kind == 'ref':
        return it_next(I, st, f[0], span)
    if kind == 'cycle':
        s, pos = f
        L = seqlen(s)
        st = st.copy()
        c = simpb(bnot(eqi(L, P0)), st.pc)
        np_ = gmap(pos, lambda l: simp(imod(padd(l, P1), L), st.pc))
        I.store(st, p, agg(('it', 'cycle'), [s, np_]))
        if c is FALSE:
            return none_(), st
        return some(gmap(pos, lambda l: seqat(s, l)), c), st
    if kind == 'gen':
        v2, st = I.call_value(I.sub_ptr(p, ('f', 0)), [], st, None, span)
        if st is None:
            return None, None
        return some(v2), st
    if kind in ('map', 'filter_map', 'map_while', 'inspect'):
        o, st = it_next(I, st, I.sub_ptr(p, ('f', 0)), span)
        if st is None:
            return None, None
        oc = opt_cases(o)
        if oc is None:
            return U('map'), st
        n, s, e = oc
        if kind == 'filter_map':
            return U('filter_map'), st

        def go(s_):
            arg = e
            if kind == 'inspect':
                s_ = s_.copy()
                arg = ptr(I.newroot(s_, e))
            r, s_ = I.call_value(f[1], [arg], s_, None, span)
            if s_ is None:
                return None, None
            return (some(r) if kind == 'map' else some(e) if kind == 'inspect' else r), s_
        return branch(I, [(st.assume(s) if e is not None else None, go), (st.assume(n), lambda s_: (none_(), s_))])
    if kind == 'cloned':
        o, st = it_next(I, st, I.sub_ptr(p, ('f', 0)), span)
        if st is None:
            return None, None
        if o.k != 'Enum':
            return U('cloned'), st
        return enum(OPT, [(vi, c, tuple(I.load(st, x) for x in g)) for vi, c, g in o.a[1]]), st
    if kind == 'enum':
        o, st = it_next(I, st, I.sub_ptr(p, ('f', 0)), span)
        if st is None:
            return None, None
        oc = opt_cases(o)
        if oc is None:
            return U('enumerate'), st
        i = I.load(st, I.sub_ptr(p, ('f', 1)))
        st = st.copy()
        I.store(st, I.sub_ptr(p, ('f', 1)), gmap(i, lambda l: padd(l, P1) if l.k == 'P' else l))
        if oc[2] is None:
            return none_(), st
        return some(agg('tuple', [i, oc[2]]), oc[1]), st
    if kind == 'take':
        n = f[1]
        if n.k != 'P':
            return U('take'), st
        c = simpb(ge0(psub(n, P1)), st.pc)

        def go(s_):
            s_ = s_.copy()
            I.store(s_, I.sub_ptr(p, ('f', 1)), psub(n, P1))
            return it_next(I, s_, I.sub_ptr(p, ('f', 0)), span)
        return branch(I, [(st.assume(c), go), (st.assume(bnot(c)), lambda s_: (none_(), s_))])
    if kind == 'zip':
        o1, st = it_next(I, st, I.sub_ptr(p, ('f', 0)), span)
        if st is None:
            return None, None
        c1 = opt_cases(o1)
        if c1 is None:
            return U('zip'), st

        def go(s_):
            o2, s_ = it_next(I, s_, I.sub_ptr(p, ('f', 1)), span)
            if s_ is None:
                return None, None
            c2 = opt_cases(o2)
            if c2 is None:
                return U('zip'), s_
            if c2[2] is None:
                return none_(), s_
            return some(agg('tuple', [c1[2], c2[2]]), c2[1]), s_
        return branch(I, [(st.assume(c1[1]) if c1[2] is not None else None, go), (st.assume(c1[0]), lambda s_: (none_(), s_))])
    if kind in ('filter', 'skip_while', 'take_while'):
        if kind == 'take_while':
            o, st = it_next(I, st, I.sub_ptr(p, ('f', 0)), span)
            if st is None:
                return None, None
            oc = opt_cases(o)
            if oc is None:
                return U('take_while'), st

            def go(s_):
                s_ = s_.copy()
                r, s_ = I.call_value(f[1], [ptr(I.newroot(s_, oc[2]))], s_, None, span)
                if s_ is None:
                    return None, None
                if r.k != 'B':
                    return U('take_while'), s_
                # exhausted for good once the predicate fails
                inner = I.load(s_, I.sub_ptr(p, ('f', 0)))
                s_ = s_.copy()
                I.store(s_, p, merge(r, I.load(s_, p), mkit(lit([]), P0, P0)))
                return some(oc[2], r), s_
            return branch(I, [(st.assume(oc[1]) if oc[2] is not None else None, go), (st.assume(oc[0]), lambda s_: (none_(), s_))])
        if kind == 'filter' and I.concrete:
            outs = []
            cur = st
            for _ in range(80):
                o, cur = it_next(I, cur, I.sub_ptr(p, ('f', 0)), span)
                if cur is None:
                    break
                oc = opt_cases(o)
                if oc is None:
                    return U('filter'), st
                sn = cur.assume(oc[0])
                if sn is not None:
                    outs.append((sn, lambda s_: (none_(), s_)))
                ss = cur.assume(oc[1]) if oc[2] is not None else None
                if ss is None:
                    break
                ss = ss.copy()
                r, ss = I.call_value(f[1], [ptr(I.newroot(ss, oc[2]))], ss, None, span)
                if ss is None:
                    break
                if r.k != 'B':
                    return U('filter'), st
                sy = ss.assume(r)
                if sy is not None:
                    outs.append((sy, lambda s_, e=oc[2]: (some(e), s_)))
                cur = ss.assume(bnot(r))
                if cur is None:
                    break
            else:
                return U('filter'), st
            return branch(I, outs)
        return U(kind), st
    import models_std
    r = models_std.next_more(I, st, p, v, span)
    return r if r is not None else (U('next of ' + str(kind)), st)


@m('Iterator::next')
def _(cx, p):
    return it_next(cx.I, cx.st, p, cx.span)


@m('DoubleEndedIterator::next_back')
def _(cx, p):
    I, st = cx.I, cx.st
    v = I.load(st, p)
    if v.k == 'Agg' and not is_it(v):
        it = to_it(I, st, v)
        if it is not None:
            v = it
    if idx(v):
        items, lo, hi = v.a[1]
        if hi is not INF:
            c = simpb(lt(lo, hi), st.pc)
            st = st.copy()
            if c is FALSE:
                return none_(), st
            nh = psub(hi, P1)
            if isinstance(I.load(st, p).a[0], str):
                w = I.load(st, p)
                I.store(st, p, agg(w.a[0], [w.a[1][0], merge(c, psub(w.a[1][1], P1), w.a[1][1])]))
            else:
                I.store(st, p, mkit(items, lo, merge(c, nh, hi)))
            return some(seqat(items, nh), c), st
    return U('next_back'), st


@m('Iterator::nth')
def _(cx, p, n):
    I, st = cx.I, cx.st
    v = I.load(st, p)
    if v.k == 'Agg' and not is_it(v):
        v = to_it(I, st, v) or v
    if idx(v) and n.k == 'P':
        items, lo, hi = v.a[1]
        q = padd(lo, n)
        c = TRUE if hi is INF else simpb(lt(q, hi), st.pc)
        st = st.copy()
        I.store(st, p, mkit(items, merge(c, padd(q, P1), hi), hi))
        if c is FALSE:
            return none_(), st
        return some(seqat(items, q), c), st
    return U('nth'), st


@m('Iterator::last')
def _(cx, a):
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        if pconst(n) == 0:
            return none_()
        return some(seqat(xs, psub(n, P1)), bnot(eqi(n, P0)))
    return U('last')


@m('Iterator::count', 'ExactSizeIterator::len')
def _(cx, a):
    if a.k == 'Ptr' and cx.n.startswith('Exact'):
        a = cx.I.load(cx.st, a)
    x = take_it(cx, a)
    if idx(x):
        return rest(x)[1]
    return U('count')


@m('Iterator::size_hint')
def _(cx, a):
    return U('size_hint')


# consumption -------------------------------------------------------------
def for_each(I, it, st, body, name, span=''):
    """runs body(state, element) -> state for every element of the iterator at pointer it"""
    live = lambda s: set(s.mem)

    def step(s):
        o, s = it_next(I, s, it, span)
        if s is None:
            return None, []
        oc = opt_cases(o)
        if oc is None:
            s = s.copy()
            I.havoc_all(s, 'unknown iterator')
            return None, [('x', s)]
        n, sm, e = oc
        s1 = s.assume(sm) if e is not None else None
        s0 = s.assume(n)
        back = body(s1, e) if s1 is not None else None
        return back, ([('x', s0)] if s0 is not None else [])
    from interp import merge_states
    outs = I.run_loop(st, step, None, name)
    return merge_states([s for _, s in outs])


def own_it(cx, v):
    """iterator by value -> (pointer, state)"""
    x = take_it(cx, v)
    if x is None:
        if v.k == 'Agg' and isinstance(v.a[0], str) and v.a[0].startswith('core::ops::range'):
            x = v
        else:
            return None, cx.st
    st = cx.st.copy()
    return ptr(cx.I.newroot(st, x)), st


def it_rev(x):
    if idx(x):
        xs, n = rest(x)
        if n is not INF:
            return mkit(mkseq(n, lambda p: seqat(xs, psub(psub(n, P1), p))), P0, n)
    return None


@m('DoubleEndedIterator::rfold')
def _(cx, a, init, f):
    x = take_it(cx, a)
    r = it_rev(x) if x is not None else None
    if r is None:
        return U('rfold')
    return fold(cx, r, init, f)


@m('Iterator::fold')
def fold(cx, a, init, f):
    I = cx.I
    it, st = own_it(cx, a)
    if it is None:
        return U('fold')
    acc = ptr(I.newroot(st, init))
    fp = as_place(I, f, st)

    def body(s, e):
        v, s = I.call_value(fp, [I.load(s, acc), e], s, None, cx.span)
        if s is None:
            return None
        s = s.copy()
        I.store(s, acc, v)
        return s
    st = for_each(I, it, st, body, 'fold@' + str(cx.span), cx.span)
    if st is None:
        return None, None
    return I.load(st, acc), st


@m('Iterator::reduce')
def _(cx, a, f):
    I = cx.I
    it, st = own_it(cx, a)
    if it is None:
        return U('reduce')
    o, st = it_next(I, st, it, cx.span)
    if st is None:
        return None, None
    oc = opt_cases(o)
    if oc is None:
        return U('reduce'), st

    def go(s):
        s = s.copy()
        acc = ptr(I.newroot(s, oc[2]))
        fp = as_place(I, f, s)

        def body(s, e):
            v, s = I.call_value(fp, [I.load(s, acc), e], s, None, cx.span)
            if s is None:
                return None
            s = s.copy()
            I.store(s, acc, v)
            return s
        s = for_each(I, it, s, body, 'reduce@' + str(cx.span), cx.span)
        if s is None:
            return None, None
        return some(I.load(s, acc)), s
    return branch(I, [(st.assume(oc[1]) if oc[2] is not None else None, go), (st.assume(oc[0]), lambda s: (none_(), s))])


@m('Iterator::for_each')
def _(cx, a, f):
    I = cx.I
    it, st = own_it(cx, a)
    if it is None:
        return U('for_each')
    fp = as_place(I, f, st)

    def body(s, e):
        v, s = I.call_value(fp, [e], s, None, cx.span)
        return s
    st = for_each(I, it, st, body, 'for_each@' + str(cx.span), cx.span)
    return (UNIT, st) if st is not None else (None, None)


@m('Iterator::sum', 'Iterator::product')
def _(cx, a):
    I = cx.I
    it, st = own_it(cx, a)
    t = I.ty(cx.dty) if cx.dty is not None else {'k': '?'}
    if it is None or t['k'] not in ('int', 'uint', 'float'):
        return U('sum')
    sm = cx.n.endswith('sum')
    if t['k'] == 'float':
        init = I.eop('zero' if sm else 'one')
    else:
        init = P0 if sm else P1
    acc = ptr(I.newroot(st, init))

    def body(s, e):
        s = s.copy()
        I.store(s, acc, scalar_op(I, 'add' if sm else 'mul', I.load(s, acc), I.deref(s, e), s))
        return s
    st = for_each(I, it, st, body, 'sum@' + str(cx.span), cx.span)
    if st is None:
        return None, None
    return I.load(st, acc), st


COLL = ('alloc::vec::Vec', 'alloc::boxed::Box')


@m('Iterator::collect', 'FromIterator::from_iter', 'Vec::from_iter', 'Box::from_iter')
def _(cx, a):
    I = cx.I
    t = I.ty(cx.dty) if cx.dty is not None else {'k': '?'}
    if not (t['k'] == 'adt' and t['p'] in COLL):
        return U('collect into %s' % t.get('s'))
    x = take_it(cx, a)
    if idx(x) and x.a[1][2] is not INF:
        xs, n = rest(x)
        return xs if seqlen(xs) is n else sub_seq(xs, P0, n)
    return collect_seq(cx, a, lit([]))


def collect_seq(cx, a, init):
    I = cx.I
    it, st = own_it(cx, a)
    if it is None:
        return U('collect')
    acc = ptr(I.newroot(st, init))

    def body(s, e):
        s = s.copy()
        I.store(s, acc, gmap(I.load(s, acc), lambda v: snoc(v, e) if v.k == 'Seq' else U('collect')))
        return s
    st = for_each(I, it, st, body, 'collect@' + str(cx.span), cx.span)
    if st is None:
        return None, None
    return I.load(st, acc), st


@m('Extend::extend', 'Vec::extend')
def _(cx, p, a):
    I = cx.I
    p2, s = seqof(cx, p)
    x = take_it(cx, a)
    if s.k == 'Seq' and idx(x) and x.a[1][2] is not INF:
        xs, n = rest(x)
        xs = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
        t = I.ty(cx.c['a'][0]['t']) if cx.c.get('a') else {'k': '?'}
        # extending Vec<T> from an iterator of &T copies
        st = cx.st.copy()
        if t['k'] == 'adt' and I.ty(t['a'][0]['t'])['k'] != 'ref' and seqlen(xs) is not P0:
            xs0 = xs
            xs = mkseq(seqlen(xs), lambda q: (lambda v: I.load(st, v) if v.k == 'Ptr' else v)(seqat(xs0, q)))
        I.store(st, p2, concat(s, xs))
        return UNIT, st
    it, st = own_it(cx, a)
    if it is None or s.k != 'Seq':
        return UNIT, upd_seq(cx, p, lambda s: U('extend'))

    def body(s_, e):
        s_ = s_.copy()
        v = I.load(s_, p2)
        I.store(s_, p2, gmap(v, lambda l: snoc(l, I.load(s_, e) if e.k == 'Ptr' else e) if l.k == 'Seq' else U('extend')))
        return s_
    st = for_each(I, it, st, body, 'extend@' + str(cx.span), cx.span)
    return (UNIT, st) if st is not None else (None, None)


@m('Iterator::all', 'Iterator::any')
def _(cx, p, f):
    I = cx.I
    st = cx.st.copy()
    fp = as_place(I, f, st)
    v = I.load(st, p)
    if v.k == 'Agg' and not is_it(v) or v.k == 'Seq':
        v = to_it(I, st, v) or v
    al = cx.n.endswith('all')
    if idx(v) and v.a[1][2] is not INF:
        xs, n = rest(v)
        s = xs if seqlen(xs) is n else sub_seq(xs, P0, n)
        if s.a[1] != 'lit':
            r = pure_map(I, s, lambda s_, e: I.call_value(fp, [e], s_, None, cx.span), st, cx.span)
            if r is not None and r[1] is not None and r[0].k == 'Seq':
                ms, st2 = r
                if ms.a[1] == 'lit' or True:
                    k = fresh('k')
                    b = seqat(ms, pa(k)) if seqlen(ms) is not P0 else TRUE
                    if b is None or b.k != 'B':
                        return I.unkb(ms), st2
                    st2 = st2.copy()
                    I.store(st2, p, mkit(lit([]), P0, P0) if False else U('partly consumed iterator'))
                    if al:
                        return forall(k, bimp(lt(pa(k), n), b)), st2
                    return exists(k, band(lt(pa(k), n), b)), st2
        else:
            res = TRUE if al else FALSE
            cur = st
            for e in s.a[2]:
                r, cur = I.call_value(fp, [e], cur, None, cx.span)
                if cur is None:
                    return None, None
                if r.k != 'B':
                    r = I.unkb(r)
                res = band(res, r) if al else bor(res, r)
            cur = cur.copy()
            I.store(cur, p, U('partly consumed iterator'))
            return res, cur
    return I.unkb(U('all/any')), st


@m('Iterator::position', 'Iterator::find', 'Iterator::rposition', 'Iterator::find_map')
def _(cx, p, f):
    I = cx.I
    st = cx.st.copy()
    v = I.load(st, p)
    if v.k == 'Agg' and not is_it(v):
        v = to_it(I, st, v) or v
    if idx(v) and v.a[1][2] is not INF:
        xs, n = rest(v)
        if pconst(n) is not None and pconst(n) <= 40 and not cx.n.endswith('find_map'):
            fp = as_place(I, f, st)
            rem = TRUE
            cs = []
            order = range(pconst(n))
            if cx.n.endswith('rposition'):
                order = reversed(order)
            for i in order:
                e = seqat(xs, pc(i))
                arg = e
                if cx.n.endswith('find'):
                    arg = ptr(I.newroot(st, e))
                r, st = I.call_value(fp, [arg], st, None, cx.span)
                if st is None:
                    return None, None
                if r.k != 'B':
                    return U('position'), st
                cs.append((band(rem, r), e if cx.n.endswith('find') else pc(i)))
                rem = band(rem, bnot(r))
            if not cs:
                return none_(), st
            val = cs[-1][1]
            for c, x in reversed(cs[:-1]):
                val = merge(c, x, val)
            st = st.copy()
            I.store(st, p, U('partly consumed iterator'))
            return some(val, bnot(rem)), st
    if idx(v) and v.a[1][2] is not INF and not cx.n.endswith('find_map'):
        return search(cx, p, v, f, st)
    return U('position'), st


def search(cx, p, v, f, st):
    """position, rposition and find as a loop that is left at the first hit"""
    I = cx.I
    back = cx.n.endswith('rposition')
    find = cx.n.endswith('find')
    xs, n = rest(v)
    src = it_rev(v) if back else v
    it = ptr(I.newroot(st, src))
    fp = as_place(I, f, st)
    cnt = ptr(I.newroot(st, P0))
    res = ptr(I.newroot(st, none_()))

    def step(s):
        o, s = it_next(I, s, it, cx.span)
        if s is None:
            return None, []
        oc = opt_cases(o)
        if oc is None:
            s = s.copy()
            I.havoc_all(s, 'unknown iterator')
            return None, [('x', s)]
        no, so, e = oc
        s1 = s.assume(so) if e is not None else None
        s0 = s.assume(no)
        outs = [('x', s0)] if s0 is not None else []
        if s1 is None:
            return None, outs
        s1 = s1.copy()
        arg = ptr(I.newroot(s1, e)) if find else e
        r, s1 = I.call_value(fp, [arg], s1, None, cx.span)
        if s1 is None:
            return None, outs
        if r.k != 'B':
            r = I.unkb(r)
        hit, miss = s1.assume(r), s1.assume(bnot(r))
        if hit is not None:
            hit = hit.copy()
            i = I.load(hit, cnt)
            I.store(hit, res, some(e if find else psub(psub(n, P1), i) if back else i, TRUE))
            outs.append(('x', hit))
        if miss is not None:
            miss = miss.copy()
            I.store(miss, cnt, padd(I.load(miss, cnt), P1))
        return miss, outs
    from interp import merge_states
    st = merge_states([s for _, s in I.run_loop(st, step, None, 'search@' + str(cx.span))])
    if st is None:
        return None, None
    r = I.load(st, res)
    st = st.copy()
    I.store(st, p, U('partly consumed iterator'))
    return r, st


@m('Iterator::max', 'Iterator::min')
def _(cx, a):
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        c = pconst(n)
        if c is not None and 0 < c < 20 and all(l.k == 'P' for l in [cx.val(seqat(xs, pc(i))) for i in range(c)]):
            r = cx.val(seqat(xs, P0))
            for i in range(1, c):
                r = (imax if cx.n.endswith('max') else imin)(r, cx.val(seqat(xs, pc(i))))
            return some(r)
        if c == 0:
            return none_()
    return U('max')


@m('Iterator::unzip')
def _(cx, a):
    x = take_it(cx, a)
    if idx(x):
        xs, n = rest(x)
        if n is not INF:
            f = lambda i: mkseq(n, lambda p: seqat(xs, p).a[1][i])
            return agg('tuple', [f(0), f(1)])
    return U('unzip')


# ---------------------------------------------------------------- ranges
RI = 'core::ops::range::RangeInclusive'


@m('RangeInclusive::new')
def _(cx, a, b):
    return agg(RI, [a, b, FALSE])


@m('RangeInclusive::start', 'RangeInclusive::end')
def _(cx, p):
    return cx.I.sub_ptr(p, ('f', 0 if cx.n.endswith('start') else 1))


@m('RangeInclusive::contains', 'Range::contains', 'RangeBounds::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains')
def _(cx, p, x):
    I = cx.I
    r = cx.val(p)
    v = cx.val(x)
    if r.k != 'Agg' or not isinstance(r.a[0], str):
        return I.unkb(r)
    t = r.a[0].split('::')[-1]
    f = [I.deref(cx.st, y) for y in r.a[1]]

    def rel(op, a, b):
        from interp import gmap2b
        return gmap2b(a, b, lambda u, w: I.erel(op, u, w))
    lo = f[0] if t in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = f[1] if t in ('Range', 'RangeInclusive') else f[0] if t in ('RangeTo', 'RangeToInclusive') else None
    c = TRUE
    if lo is not None:
        c = band(c, rel('le', lo, v))
    if hi is not None:
        c = band(c, rel('le' if 'Inclusive' in t else 'lt', v, hi))
    return c


@m('ExactSizeIterator::is_empty', 'Range::is_empty', 'RangeInclusive::is_empty')
def _(cx, p):
    v = to_it(cx.I, cx.st, cx.I.load(cx.st, p))
    if idx(v):
        return eqi(rest(v)[1], P0)
    return cx.I.unkb(U('is_empty'))


# ---------------------------------------------------------------- opaque expressions
VW = 'magnesia::linalg::dvector::VectorExprWrapper'
MW = 'magnesia::linalg::dmatrix::MatrixExprWrapper'


def oname(e):
    return show(e)


@m('VectorExpr::len')
def _(cx, p):
    return cx.I.intparam('len(%s)' % oname(cx.val(p)))


@m('MatrixExpr::num_rows')
def _(cx, p):
    return cx.I.intparam('rows(%s)' % oname(cx.val(p)))


@m('MatrixExpr::num_cols')
def _(cx, p):
    return cx.I.intparam('cols(%s)' % oname(cx.val(p)))


@m('VectorExpr::is_empty')
def _(cx, p):
    return eqi(cx.I.intparam('len(%s)' % oname(cx.val(p))), P0)


@m('VectorExpr::entry', 'MatrixExpr::entry')
def _(cx, p, *ix):
    I = cx.I
    e = cx.val(p)
    if e.k != 'E' or any(any(l.k != 'P' for l, c in gcases(i)) for i in ix):
        return U('entry of %s' % e.k)
    dims = ['len'] if len(ix) == 1 else ['rows', 'cols']
    bad = FALSE
    for d, i in zip(dims, ix):
        for l, c in gcases(i):
            bad = bor(bad, band(c, le(I.intparam('%s(%s)' % (d, oname(e))), l)))
    st = I.panic(cx.st, bad, 'operand', cx.span)
    if st is None:
        return None, None
    ix = [simp(i, st.pc) for i in ix]
    read(I, st, oname(e), tuple(ix))
    return gapp('entry', (e,) + tuple(ix)), st


def read(I, st, who, at):
    if I.reads:
        from interp import Ev
        I.events.append(Ev(st.pc, 'read', (who, at, I.site())))


@m('VectorExpr::wrap')
def _(cx, e):
    return agg(VW, [e])


@m('MatrixExpr::wrap')
def _(cx, e):
    return agg(MW, [e])


@m('VectorExpr::eval')
def _(cx, e):
    v = cx.val(e)
    if v.k != 'E':
        return U('eval')
    n = cx.I.intparam('len(%s)' % oname(v))
    if cx.I.reads:
        from interp import Ev
        k = fresh('k')
        cx.I.events.append(Ev(cx.st.pc, 'loop', (k, n, TRUE, [Ev(cx.st.pc, 'read', (oname(v), (pa(k),), cx.I.site()))], [], 'eval')))
    return agg('magnesia::linalg::dvector::DVector', [mkseq(n, lambda p: eapp('entry', v, p))])


def opaque_call(I, d, args, st, dty):
    if d in I.impure:
        return impure_call(I, d, args, st, dty)
    vs = [I.deref(st, a) for a in args]
    read(I, st, oname(d), tuple(vs))
    if any(v.k == 'U' for v in vs):
        return [v for v in vs if v.k == 'U'][0], st
    t = I.ty(dty) if dty is not None else {'k': 'param'}
    if t['k'] == 'bool':
        return bat(atom('b', 'app', d, tuple(vs))), st
    if t['k'] in ('uint', 'int'):
        return pa(atom('i', 'iapp', d, tuple(vs))), st
    return gapp(d, tuple(vs)), st


def draw_id(I):
    return (I.site(), tuple(I.loopidx))


def impure_call(I, d, args, st, dty):
    """call of a caller-supplied FnMut: an observable event with an arbitrary answer"""
    from interp import Ev
    vs = tuple(I.deref(st, a) for a in args)
    ident = draw_id(I)
    t = I.ty(dty) if dty is not None else {'k': 'param'}
    if t['k'] == 'bool':
        r = bat(atom('b', 'ans', oname(d), ident[0], ident[1]))
    elif t['k'] in ('uint', 'int'):
        r = pa(atom('i', 'iapp', 'ans', (ident[0],) + ident[1]))
    else:
        r = ea(atom('e', 'ans', oname(d), ident[0], ident[1]))
    I.events.append(Ev(st.pc, 'call', (oname(d), vs, r)))
    return r, st


# ---------------------------------------------------------------- random numbers
@m('Rng::gen_range', 'Rng::random_range')
def _(cx, rng, r):
    from interp import Ev
    I, st = cx.I, cx.st
    src = cx.val(rng)
    ident = draw_id(I)
    if r.k != 'Agg' or not isinstance(r.a[0], str):
        return U('gen_range')
    lo, hi = r.a[1][0], r.a[1][1]
    incl = r.a[0].endswith('Inclusive')
    lo, hi = simp(lo, st.pc), simp(hi, st.pc)
    if lo.k == 'P' and hi.k == 'P':
        n = psub(hi, lo) if not incl else padd(psub(hi, lo), P1)
        st = I.panic(st, lt(n, P1), 'empty range', cx.span)
        if st is None:
            return None, None
        a = pa(atom('i', 'draw', ident[0], ident[1]))
        v = padd(lo, a)
        st = st.copy()
        I.events.append(Ev(st.pc, 'draw', ('range', src, lo, hi, incl, v)))
        st.pc = band(st.pc, lt(a, n))
        return v, st
    v = ea(atom('e', 'draw', ident[0], ident[1]))
    I.events.append(Ev(st.pc, 'draw', ('range', src, lo, hi, incl, v)))
    # an empty range makes the generator itself panic; the event records the range
    return v, st


@m('Rng::gen', 'Rng::random', 'Rng::sample', 'Rng::gen_bool', 'RngCore::next_u32', 'RngCore::next_u64', 'Rng::gen_ratio')
def _(cx, rng, *a):
    from interp import Ev
    I, st = cx.I, cx.st
    src = cx.val(rng)
    ident = draw_id(I)
    t = I.ty(cx.dty) if cx.dty is not None else {'k': 'param'}
    if t['k'] == 'bool':
        v = bat(atom('b', 'draw', ident[0], ident[1]))
    elif t['k'] in ('uint', 'int'):
        v = pa(atom('i', 'draw', ident[0], ident[1]))
    elif t['k'] in ('float', 'param'):
        v = ea(atom('e', 'draw', ident[0], ident[1]))
    else:
        v = U('draw')
    I.events.append(Ev(st.pc, 'draw', (cx.n.split('::')[1], src, t.get('s')) + tuple(cx.val(x) for x in a) + (v,)))
    return v, st


@m('Arguments::from_str', 'Arguments::new', 'Arguments::new_const', 'Arguments::new_v1', 'Argument::new_display', 'Argument::new_debug', 'fmt::format')
def _(cx, *a):
    return U('fmt')
