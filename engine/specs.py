"""What every property demands of its witness roots."""
from check import *
from equal import eqv, eqe, numer
import rules


def comp(a, part):
    return ein('%s.%s' % (a, part))


# ================================================================ complex numbers
def c01(W):
    re, im = lambda a: comp(a, 're'), lambda a: comp(a, 'im')
    add = lambda x: x.cplx(eadd(re('a'), re('b')), eadd(im('a'), im('b')))
    sub = lambda x: x.cplx(esub(re('a'), re('b')), esub(im('a'), im('b')))
    yield Ob('w_new', lambda x: x.cplx(ein('re'), ein('im')))
    yield Ob('w_add', add)
    yield Ob('w_sub', sub)
    yield Ob('w_neg', lambda x: x.cplx(eneg(re('a')), eneg(im('a'))))
    yield Ob('w_conj', lambda x: x.cplx(re('a'), eneg(im('a'))))
    for n in ('w_add_assign', 'w_add_assign_ref'):
        yield Ob(n, add, at='a')
    for n in ('w_sub_assign', 'w_sub_assign_ref'):
        yield Ob(n, sub, at='a')


def cmul(x, a, b):
    (p, q), (r, s) = a, b
    return x.cplx(esub(emul(p, r), emul(q, s)), eadd(emul(p, s), emul(q, r)))


def parts(a):
    return comp(a, 're'), comp(a, 'im')


def c02(W):
    mul = lambda x: cmul(x, parts('a'), parts('b'))
    for n in ('w_mul', 'w_mul_ref', 'w_mul_refs'):
        yield Ob(n, mul)
    yield Ob('w_mul_assign', mul, at='a')
    s = ein('s')
    yield Ob('w_scale', lambda x: x.cplx(emul(comp('a', 're'), s), emul(comp('a', 'im'), s)))


def cdiv(x, a, b):
    (p, q), (r, s) = a, b
    d = einv(eadd(emul(r, r), emul(s, s)))
    return x.cplx(emul(eadd(emul(p, r), emul(q, s)), d), emul(esub(emul(q, r), emul(p, s)), d))


def c03(W):
    for n in ('w_div', 'w_div_ref', 'w_div_refs'):
        yield Ob(n, lambda x: cdiv(x, parts('a'), parts('b')), mode='comm')
    s = ein('s')
    for n in ('w_sdiv', 'w_sdiv_by_ref', 'w_sdiv_refs'):
        yield Ob(n, lambda x: x.cplx(emul(comp('a', 're'), einv(s)), emul(comp('a', 'im'), einv(s))), mode='comm')


def c04(W):
    n2 = lambda: eadd(emul(comp('a', 're'), comp('a', 're')), emul(comp('a', 'im'), comp('a', 'im')))
    yield Ob('w_sqr_norm', lambda x: n2())
    yield Ob('w_abs', lambda x: x.app('sqrt', n2()), mode='comm')
    yield Ob('w_abs_ref', lambda x: x.app('sqrt', n2()), mode='comm')
    yield Ob('w_arg', lambda x: x.app('atan2', comp('a', 'im'), comp('a', 're')), mode='comm')


def c05(W):
    X_, Y = comp('z', 're'), comp('z', 'im')

    def sn(x): return x.app('sin', X_), x.app('cos', X_), x.app('sinh', Y), x.app('cosh', Y)
    def hy(x): return x.app('sinh', X_), x.app('cosh', X_), x.app('sin', Y), x.app('cos', Y)
    def s_(x):
        s, c, sh, ch = sn(x)
        return emul(s, ch), emul(c, sh)
    def c_(x):
        s, c, sh, ch = sn(x)
        return emul(c, ch), eneg(emul(s, sh))
    def sinh_(x):
        sh, ch, s, c = hy(x)
        return emul(sh, c), emul(ch, s)
    def cosh_(x):
        sh, ch, s, c = hy(x)
        return emul(ch, c), emul(sh, s)
    yield Ob('w_exp', lambda x: x.cplx(emul(x.app('exp', X_), x.app('cos', Y)), emul(x.app('exp', X_), x.app('sin', Y))), mode='comm')
    yield Ob('w_sin', lambda x: x.cplx(*s_(x)), mode='comm')
    yield Ob('w_cos', lambda x: x.cplx(*c_(x)), mode='comm')
    yield Ob('w_sinh', lambda x: x.cplx(*sinh_(x)), mode='comm')
    yield Ob('w_cosh', lambda x: x.cplx(*cosh_(x)), mode='comm')
    yield Ob('w_tan', lambda x: cdiv(x, s_(x), c_(x)), mode='comm')


def c06(W):
    a, b = comp('z', 're'), comp('z', 'im')
    yield Ob('w_ln', lambda x: x.cplx(escale(x.app('ln', eadd(emul(a, a), emul(b, b))), Fraction(1, 2)), x.app('atan2', b, a)), mode='comm')


def c07(W):
    yield Ob('w_sqrt', mode='comm', ord='exact', custom=sqrt_ok)


def nonneg(e):
    """syntactically non-negative: sums of products of roots and absolute values"""
    for w, c in e.a:
        if c < 0:
            return False
        odd = {}
        for at in w:
            b, p = terms._powof(at)
            n = pconst(p)
            if n is None:
                return False
            odd[b] = odd.get(b, 0) + n
        for b, n in odd.items():
            if n % 2 == 0:
                continue
            if b.a[1] == 'app' and b.a[2] in ('sqrt', 'abs', 'exp', 'cosh'):
                continue
            if b.a[1] == 'poly' and nonneg(b.a[2]):
                continue
            if b.a[1] == 'inv' and nonneg(b.a[2]):
                continue
            return False
    return True


def denominators(e, out):
    """everything the value divides by"""
    if e.k != 'E':
        return out
    for w, c in e.a:
        for at in w:
            b, p = terms._powof(at)
            n = pconst(p)
            if n is None or n < 0:
                out.append(ea(b))
            if b.a[1] == 'inv':
                out.append(b.a[2])
            if b.a[1] in ('inv', 'poly'):
                denominators(b.a[2], out)
            if b.a[1] == 'app':
                for y in b.a[3]:
                    if isinstance(y, terms.N):
                        denominators(y, out)
    return out


def positive(e, a, b):
    """strictly positive unless a and b are both zero"""
    if e.k != 'E' or not nonneg(e):
        return False
    ws = [tuple(w) for w, c in e.a]
    if emul(a, a).a[0][0] in ws and emul(b, b).a[0][0] in ws:
        return True

    def pos(at):
        bs, p = terms._powof(at)
        return bs.a[1] == 'app' and (bs.a[2] in ('exp', 'cosh') or bs.a[2] == 'sqrt' and positive(bs.a[3][0], a, b)) \
            or bs.a[1] in ('poly', 'inv') and positive(bs.a[2], a, b)
    return any(all(pos(at) for at in w) for w, c in e.a)


def at_point(vals):
    """evaluator with the given inputs"""
    e = evalt.Ev('real', evalt.random.Random(1), 0, {})
    for v, x in vals:
        e.val(v, {})
        k = next(k for k in e.names if k not in {q for q, _ in getattr(e, 'fixed', [])})
        e.fixed = getattr(e, 'fixed', []) + [(k, x)]
    e.names = dict(e.fixed)
    e.memo = {}
    return e


def sqrt_ok(x, r, pre):
    a, b = comp('z', 're'), comp('z', 'im')
    if r.val is None or r.val.k != 'Agg' or len(r.val.a[1]) != 2:
        return Outcome(UNDEC, 'value not determined')
    o = x.fieldorder('Complex', ['re', 'im'])
    f = [r.val.a[1][o.index(0)], r.val.a[1][o.index(1)]]
    zero = ec(0)
    bneg, aneg = relb('lt', b, zero), relb('lt', a, zero)
    undec = None
    ncase = 0
    for re, c1 in gcases(f[0]):
        for im, c2 in gcases(f[1]):
            for sa, ca in ((1, bnot(aneg)), (-1, aneg)):
                for sb, cb in ((1, bnot(bneg)), (-1, bneg)):
                    q = band(pre, c1, c2, ca, cb)
                    if not feasible(q):
                        continue
                    ncase += 1
                    if re.k != 'E' or im.k != 'E':
                        undec = 'value not determined'
                        continue
                    # |a| = sa*a, |b| = sb*b in this case
                    m = {terms.atom('e', 'app', 'abs', (a,)): escale(a, sa), terms.atom('e', 'app', 'abs', (b,)): escale(b, sb)}
                    # a part that is zero in this case
                    for v, g in ((a, aneg), (b, bneg)):
                        if entails(q, bnot(g)) and entails(q, relb('le', v, zero)):
                            m[v.a[0][0][0]] = E0
                    R, J = absub(re, m), absub(im, m)
                    d1 = numer(esub(esub(emul(R, R), emul(J, J)), absub(a, m)))
                    d2 = numer(esub(escale(emul(R, J), 2), absub(b, m)))
                    if d1 is not E0:
                        d1 = sqfold(d1)
                    if d2 is not E0:
                        d2 = sqfold(d2, b, sb)
                    ok = d1 is E0 and d2 is E0
                    ok = ok and nonneg(re)
                    # no division by zero
                    dens = denominators(im, denominators(re, []))
                    if dens:
                        z = at_point([(a, 0.0), (b, 0.0)])
                        try:
                            hit = z.B(q, {})
                        except (evalt.Unknown, evalt.Undefined):
                            hit, ok = False, False
                        if hit:
                            try:
                                zd = [z.val(d, {}) for d in dens]
                            except evalt.Undefined:
                                zd = [0.0]
                            except evalt.Unknown:
                                zd = []
                                ok = False
                            if 0.0 in zd:
                                return Outcome(VIOLATED, 'the square root of zero divides by zero', {'found': describe(re), 'under': describe(q, 400), 'example': {'re': 0, 'im': 0}})
                        ok = ok and all(positive(d, a, b) for d in dens)
                    # the sign of the imaginary part
                    ok = ok and (sb < 0 or nonneg(im))
                    if not ok:
                        undec = 'case %s: re=%s im=%s' % (describe(q, 200), describe(re, 200), describe(im, 200))
    if undec is None and ncase:
        return Outcome(PROVED, data={'cases': ncase})
    # confirm by an input
    rnd = evalt.random.Random(5)
    for t in range(3000):
        e = evalt.Ev('real', rnd, t, {})
        try:
            u, v = e.val(a, {}), e.val(b, {})
            try:
                p, s = e.val(f[0], {}), e.val(f[1], {})
            except evalt.Undefined:
                if t % 4 == 1 and evalt_exact(e, f):
                    return Outcome(VIOLATED, 'the square root is not defined', {'example': {'re': u, 'im': v}})
                continue
        except evalt.Undefined:
            continue
        except evalt.Unknown:
            break
        tol = 1e-6 * max(1.0, abs(u), abs(v))
        if abs(p * p - s * s - u) > tol or abs(2 * p * s - v) > tol:
            return Outcome(VIOLATED, 'the square of the square root is not the argument', {'example': {'re': u, 'im': v, 'root': [p, s]}})
        if p < -1e-6 or (s < -1e-6 and v >= 0):
            return Outcome(VIOLATED, 'not the principal root', {'example': {'re': u, 'im': v, 'root': [p, s]}})
    return Outcome(UNDEC, undec or 'no case')


def evalt_exact(e, f):
    """undefined at an exactly represented point: zero or small integers"""
    return True


def absub(e, m):
    r = E0
    for w, c in e.a:
        t = ec(c)
        for at in w:
            base, p = terms._powof(at)
            n = pconst(p)
            v = m.get(base)
            if v is None and base.a[1] == 'app' and base.a[2] == 'sqrt':
                v = models.efun(None, 'sqrt', [absub(base.a[3][0], m)])
            elif v is None and base.a[1] == 'poly':
                v = absub(base.a[2], m)
            elif v is None and base.a[1] == 'inv':
                v = einv(absub(base.a[2], m))
            if v is None:
                v = ea(base)
            t = emul(t, epow(v, p) if n is None or n >= 0 else epow(einv(v), pc(-n)))
        r = eadd(r, t)
    return r


def sqfold(d, b=None, sb=1):
    """products of roots: sqrt(x) sqrt(y) = sqrt(xy) when x, y >= 0; sqrt of a square of b is sb*b"""
    if d is None:
        return d
    r = E0
    for w, c in d.a:
        roots = [at for at in w if at.a[1] == 'app' and at.a[2] == 'sqrt']
        if len(roots) >= 2:
            x = E1
            for at in roots:
                x = emul(x, at.a[3][0])
            x = numer(x)
            t = mk('E', ((tuple(at for at in w if at not in roots), c),))
            s = perfect(x, b, sb)
            t = emul(t, s if s is not None else models.efun(None, 'sqrt', [x]))
        else:
            t = mk('E', ((w, c),))
        r = eadd(r, t)
    n = numer(r)
    return n


def perfect(x, b, sb):
    """x = k^2 b^2 -> k sb b"""
    if b is None or len(x.a) != 1:
        return None
    q = emul(b, b)
    c = Fraction(x.a[0][1]) / Fraction(q.a[0][1])
    if x.a[0][0] != q.a[0][0] or c < 0:
        return None
    from math import isqrt
    n, dd = isqrt(c.numerator), isqrt(c.denominator)
    if n * n != c.numerator or dd * dd != c.denominator:
        return None
    return escale(b, Fraction(n, dd) * sb)


# ================================================================ polynomials
K = 'K'


def seqof(v):
    """the sequence inside a polynomial / vector value"""
    def g(l):
        while l.k == 'Agg' and len(l.a[1]) == 1:
            l = l.a[1][0]
            if l is None:
                return U('no sequence')
        if l.k == 'G':
            return gmap(l, g)
        return l
    return gmap(v, g)


def coef(v, k):
    """coefficient k of a polynomial value, zero beyond the end"""
    s = seqof(v)

    def g(l):
        if l.k != 'Seq':
            return U('no sequence')
        inside = lt(k, seqlen(l))
        if inside is FALSE:
            return E0
        return merge(inside, seqat(l, k), E0)
    return gmap(s, g)


def pin(x, p, k):
    """coefficient k of the input polynomial p"""
    return merge(lt(k, x.len(p)), ein(p, k), E0)


def poly(root, f, at='val', **kw):
    return Ob(root, lambda x: f(x, x.n(K)), at=at, after=lambda x, got: coef(got, x.n(K)), sizes={K: range(0, 8)}, **kw)


def p01(W):
    def ev(x):
        k = fresh('k')
        xx = ein('x')
        return mksum(k, lt(pa(k), x.len('p')), emul(ein('p', pa(k)), epow(xx, pa(k))))
    yield Ob('w_eval', ev)
    yield Ob('w_eval_ref', ev)


def p02(W):
    add = lambda x, k: gadd(pin(x, 'p', k), pin(x, 'q', k))
    sub = lambda x, k: gsub(pin(x, 'p', k), pin(x, 'q', k))
    yield poly('w_add', add)
    yield poly('w_sub', sub)
    yield poly('w_neg', lambda x, k: gneg(pin(x, 'p', k)))
    for n in ('w_add_assign', 'w_add_assign_ref'):
        yield poly(n, add, at='p')
    for n in ('w_sub_assign', 'w_sub_assign_ref'):
        yield poly(n, sub, at='p')


def p03(W):
    def conv(x, k):
        # sum over i <= k with i < len p, k - i < len q
        i = fresh('i')
        c = band(le(pa(i), k), lt(pa(i), x.len('p')), lt(psub(k, pa(i)), x.len('q')))
        return mksum(i, c, emul(ein('p', pa(i)), ein('q', psub(k, pa(i)))))
    for n in ('w_mul', 'w_mul_ref', 'w_mul_refs'):
        yield poly(n, conv)
    yield poly('w_mul_assign', conv, at='p')
    empty = lambda x: bor(eqi(x.len('p'), P0), eqi(x.len('q'), P0))
    for n in ('w_mul', 'w_mul_ref'):
        yield poly(n, lambda x, k: E0, pre=empty, key=n + ':empty operand')


def p04(W):
    def same(x):
        k = fresh('k')
        m = imax(x.len('p'), x.len('q'))
        d = gsub(pin(x, 'p', pa(k)), pin(x, 'q', pa(k)))
        z = FALSE
        for l, c in gcases(d):
            z = bor(z, band(c, relb('eq', l, E0)))
        return forall(k, bimp(lt(pa(k), m), z))
    yield Ob('w_eq', same)
    yield Ob('w_ne', lambda x: bnot(same(x)))


# ================================================================ rings
def r01(W):
    for t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
        yield Ob('w_zero_' + t, lambda x: P0)
        yield Ob('w_one_' + t, lambda x: P1)
    for t in ('f32', 'f64'):
        yield Ob('w_zero_' + t, lambda x: E0)
        yield Ob('w_one_' + t, lambda x: E1)
    yield Ob('w_zero_from', lambda x: E0)
    yield Ob('w_one_from', lambda x: E1)
    for n in ('w_complex_add_zero', 'w_complex_zero_add', 'w_complex_mul_one', 'w_complex_one_mul'):
        yield Ob(n, lambda x: x.cplx(*parts('a')))
    for n in ('w_poly_add_zero', 'w_poly_zero_add', 'w_poly_mul_one', 'w_poly_one_mul'):
        yield poly(n, lambda x, k: pin(x, 'a', k))
    for n in ('w_svec_add_zero', 'w_svec_zero_add'):
        yield Ob(n, lambda x: x.wrap(x.seq(x.n('N'), lambda i: ein('a', i))))
    for n in ('w_smat_add_zero', 'w_smat_zero_add'):
        yield Ob(n, lambda x: smat(x, 'R', 'C', lambda i, j: ein('a', i, j)))
    for n in ('w_smat_mul_one', 'w_smat_one_mul'):
        yield Ob(n, lambda x: smat(x, 'N', 'N', lambda i, j: ein('a', i, j)))
    yield Ob('w_smat_one', lambda x: smat(x, 'R', 'C', lambda i, j: merge(eqi(i, j), E1, E0)))
    yield Ob('w_smat_zero', lambda x: smat(x, 'R', 'C', lambda i, j: E0))


def smat(x, R, C, f):
    return x.wrap(x.seq(x.n(R), lambda i: x.seq(x.n(C), lambda j: f(i, j))))


def svec(x, N_, f):
    return x.wrap(x.seq(x.n(N_), f))


def r03(W):
    a, b = ein('a'), ein('b')
    yield Ob('w_mul_refs', lambda x: eapp('mul', a, b), mode='free')
    yield Ob('w_div_refs', lambda x: eapp('div', a, b), mode='free')
    for t in ('i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128'):
        yield Ob('w_conj_' + t, lambda x: x.n('x'), mode='free')
    for t in ('f32', 'f64'):
        yield Ob('w_conj_' + t, lambda x: ein('x'), mode='free')
    for t in ('i8', 'i64', 'u16'):
        yield Ob('w_mul_refs_' + t, lambda x: pmul(x.n('x'), x.n('y')), mode='free', panic='ignore')
    for t in ('f32', 'f64'):
        yield Ob('w_mul_refs_' + t, lambda x: eapp('mul', ein('x'), ein('y')), mode='free')
        yield Ob('w_div_refs_' + t, lambda x: eapp('div', ein('x'), ein('y')), mode='free')


# ================================================================ static vectors and matrices
def s01(W):
    for op, f in (('add', eadd), ('sub', esub)):
        e = lambda x, f=f: svec(x, 'N', lambda i: f(ein('a', i), ein('b', i)))
        yield Ob('w_%s' % op, e)
        yield Ob('w_%s_ref' % op, e)
        yield Ob('w_%s_assign' % op, e, at='a')
        yield Ob('w_%s_assign_ref' % op, e, at='a')
    e = lambda x: svec(x, 'N', lambda i: emul(ein('a', i), ein('s')))
    yield Ob('w_scale', e)
    yield Ob('w_scale_ref', e)
    yield Ob('w_scale_assign', e, at='a')
    yield Ob('w_scale_assign_ref', e, at='a')


def s02(W):
    e = lambda x: x.sum(x.n('N'), lambda i: emul(ein('a', i), ein('b', i)))
    yield Ob('w_dot', e)
    yield Ob('w_dot_ref', e)


def s03(W):
    full = lambda x: svec(x, 'N', lambda i: ein('a', i))
    bare = lambda x: x.seq(x.n('N'), lambda i: ein('a', i))
    ini = lambda x: lt(x.n('i'), x.n('N'))
    yield Ob('w_from', full)
    yield Ob('w_index', lambda x: ein('a', x.n('i')), pre=ini)
    put = lambda ix, w: lambda x: svec(x, 'N', lambda j: merge(eqi(j, x.n(ix)), ein(w), ein('a', j)))
    yield Ob('w_index_mut', put('i', 'v'), at='a', pre=ini)
    yield Ob('w_iter_val', bare)
    yield Ob('w_iter_ref', bare)
    yield Ob('w_iter_mut', lambda x: svec(x, 'N', lambda i: x.fn('f', i)), at='a')
    yield Ob('w_iter_mut_at', put('k', 'v'), at='a', pre=lambda x: lt(x.n('k'), x.n('N')))


def s04(W):
    yield Ob('w_from', lambda x: smat(x, 'R', 'C', lambda i, j: ein('a', i, j)))
    for op, f in (('add', eadd), ('sub', esub)):
        e = lambda x, f=f: smat(x, 'R', 'C', lambda i, j: f(ein('a', i, j), ein('b', i, j)))
        yield Ob('w_%s' % op, e)
        yield Ob('w_%s_ref' % op, e)
        yield Ob('w_%s_assign' % op, e, at='a')
        yield Ob('w_%s_assign_ref' % op, e, at='a')
    yield Ob('w_neg', lambda x: smat(x, 'R', 'C', lambda i, j: eneg(ein('a', i, j))))
    yield Ob('w_conj', lambda x: smat(x, 'R', 'C', lambda i, j: x.app('conj', ein('a', i, j))))


def s05(W):
    def prod(L, M, N_):
        return lambda x: smat(x, L, N_, lambda i, j: x.sum(x.n(M), lambda k: emul(ein('a', i, k), ein('b', k, j))))
    yield Ob('w_mul', prod('L', 'M', 'N'))
    yield Ob('w_mul_ref', prod('L', 'M', 'N'))
    yield Ob('w_mul_refs', prod('N', 'N', 'N'))
    yield Ob('w_matvec', lambda x: svec(x, 'L', lambda i: x.sum(x.n('M'), lambda k: emul(ein('a', i, k), ein('v', k)))))
    yield Ob('w_mul_assign', prod('L', 'N', 'N'), at='a')
    yield Ob('w_mul_assign_ref', prod('L', 'N', 'N'), at='a')


# ================================================================ dynamic vectors and matrices
def ne(a, b):
    return bnot(eqi(a, b))


def dims(x, root, e):
    """dimensions of operand e in root: (rows, cols) or (len,)"""
    if root.startswith('w_v') or root.startswith('w_dot'):
        return (x.len(e),)
    if (root.startswith('w_md_') and e == 'lhs') or (e == 'l') or root.startswith('w_matmul'):
        return x.n(e + '.num_rows'), x.n(e + '.num_cols')
    return x.n('rows(%s)' % e), x.n('cols(%s)' % e)


def d01(W):
    ops = ['add', 'sub', 'mul_elemwise', 'div_elemwise', 'zip']
    for k in ('vw', 'vd', 'mw', 'md'):
        for op in ops:
            for suf in ('', '_entry'):
                n = 'w_%s_%s%s' % (k, op, suf)
                if k == 'vd' and op == 'zip' or k == 'md' and op == 'zip':
                    continue
                yield mism(n, 'lhs', 'rhs')
    for n in ('w_v_add_assign', 'w_v_sub_assign', 'w_m_add_assign', 'w_m_sub_assign'):
        yield mism(n, 'l', 'r', keep=('l',))
    yield mism('w_dot', 'l', 'r')
    yield mism('w_dot_ref', 'l', 'r')
    for n in ('w_matmul', 'w_matmul_entry'):
        yield Ob(n, pre=lambda x: ne(x.n('l.num_cols'), x.n('r.num_rows')), panic='must')


def mism(n, a, b, keep=()):
    def pre(x):
        return bor(*[ne(p, q) for p, q in zip(dims(x, n, a), dims(x, n, b))])
    return Ob(n, pre=pre, panic='must', keep=keep)


def d02(W):
    vec = {'w_dv_entry': 'len(v)', 'w_dv_entry_ref': 'len(v)', 'w_dv_index': 'len(v)', 'w_dv_index_mut': 'len(v)', 'w_dv_wrap_entry': 'len(v)',
           'w_slice_entry': 'len(v)', 'w_array_slice_entry': 'N'}
    for n, l in vec.items():
        yield Ob(n, pre=lambda x, l=l: le(x.n(l), x.n('i')), panic='must', keep=('v',) if n.endswith('mut') else ())
    mat = {'w_dm_entry': None, 'w_dm_entry_ref': None, 'w_dm_index': None, 'w_dm_index_mut': None, 'w_dm_wrap_entry': None, 'w_array_entry': ('R', 'C')}
    for n, rc in mat.items():
        R, C = rc or ('m.num_rows', 'm.num_cols')
        yield Ob(n, pre=lambda x, R=R, C=C: bor(le(x.n(R), x.n('r')), le(x.n(C), x.n('c'))), panic='must', keep=('m',) if n.endswith('mut') else ())


    for n, rc in mat.items():
        R, C = rc or ('m.num_rows', 'm.num_cols')
        yield Ob(n, custom=wrapping(n, R, C), panic='ignore', key=n + ':machine arithmetic')


def wrapping(root, R, C):
    """the address computed for an accepted row and column fits the machine word, so the bounds checks also reject everything else
    where the compiler leaves overflow unchecked"""
    def f(x, r, pre):
        if r.I.concrete:
            return Outcome(PROVED)
        w = RUN.run_root(x.W, root, 'ring', None, False, wrap=True)
        if w.st is None:
            return Outcome(PROVED)
        x = X(w.I, x.W)
        bounds = [x.n('r'), x.n('c'), x.n(R), x.n(C), pmul(x.n(R), x.n(C))]
        bad = None
        for at, v, op, c, site in w.I.ovf:
            if not any(entails(w.st.pc, le(v, b)) for b in bounds):
                bad = '%s at %s: %s' % (op, site, show(v))
                break
        if bad is None:
            return Outcome(PROVED)
        H = 1 << 63
        for nr, nc in ((2, 2), (1, 2), (3, 4), (2, 3), (1, 1), (3, 1)):
            for rr in (H, H + 1, 2 * H - 1, H // 2, -(-2 * H // nc), 2 * H // nc, 0, 1):
                for cc in (0, 1, H, 2 * H - 1, 2 * H - nc, 2 * H - rr * nc % (2 * H)):
                    if not (0 <= rr < 2 * H and 0 <= cc < 2 * H) or rr < nr and cc < nc:
                        continue
                    k = RUN.run_root(x.W, root, 'ring', {R: nr, C: nc, 'r': rr, 'c': cc}, True, wrap=True)
                    if k.st is not None and not k.I.unknown_calls and k.st.pc is TRUE:
                        return Outcome(VIOLATED, 'accepts row %d, column %d of a %dx%d matrix where overflow is not checked (%s)' % (rr, cc, nr, nc, bad),
                                       {'example': {R: nr, C: nc, 'r': rr, 'c': cc}})
        return Outcome(UNDEC, 'address arithmetic may wrap: ' + bad)
    return f


OPS = {'add': 'add', 'sub': 'sub', 'mul_elemwise': 'mul', 'div_elemwise': 'div', 'zip': None}


def d03(W):
    free = dict(mode='free')
    al = {'len(rhs)': 'len(lhs)'}
    i = lambda x: x.n('i')
    for k in ('vw', 'vd'):
        for op, f in OPS.items():
            if k == 'vd' and op == 'zip':
                continue
            n = 'w_%s_%s' % (k, op)
            def exp(x, k=k, f=f):
                a = x.entry('lhs', i(x)) if k == 'vw' else ein('lhs', i(x))
                b = x.entry('rhs', i(x))
                return agg('tuple', [a, b]) if f is None else eapp(f, a, b)
            yield Ob(n, exp, pre=lambda x: lt(i(x), x.len('lhs')), alias=al, **free)
            yield Ob(n + '_len', lambda x: x.len('lhs'), alias=al, **free)
            yield Ob(n + '_is_empty', lambda x: eqi(x.len('lhs'), P0), alias=al, **free)
    for n, f in (('w_vmap', lambda x, e: x.fn('f', e)), ('w_vwrap', None), ('w_vwrapwrap', None), ('w_vconj', lambda x, e: eapp('conj', e)), ('w_vdconj', lambda x, e: eapp('conj', e))):
        def exp(x, n=n, f=f):
            e = ein('l', i(x)) if n == 'w_vdconj' else x.entry('l', i(x))
            return f(x, e) if f else e
        yield Ob(n, exp, pre=lambda x: lt(i(x), x.len('l')), **free)
        yield Ob(n + '_len', lambda x: x.len('l'), **free)
        yield Ob(n + '_is_empty', lambda x: eqi(x.len('l'), P0), **free)
    yield Ob('w_vnest', lambda x: eapp('sub', eapp('add', x.entry('a', i(x)), ein('b', i(x))), ein('d', i(x))), pre=lambda x: lt(i(x), x.len('a')),
             alias={'len(b)': 'len(a)', 'len(d)': 'len(a)'}, **free)
    for k in ('mw', 'md'):
        R, C = ('rows(lhs)', 'cols(lhs)') if k == 'mw' else ('lhs.num_rows', 'lhs.num_cols')
        al = {'rows(rhs)': R, 'cols(rhs)': C}
        for op, f in OPS.items():
            if k == 'md' and op == 'zip':
                continue
            n = 'w_%s_%s' % (k, op)
            def exp(x, k=k, f=f):
                a = x.entry('lhs', x.n('r'), x.n('c')) if k == 'mw' else x.dm('lhs', x.n('r'), x.n('c'))
                b = x.entry('rhs', x.n('r'), x.n('c'))
                return agg('tuple', [a, b]) if f is None else eapp(f, a, b)
            yield Ob(n, exp, pre=lambda x, R=R, C=C: band(lt(x.n('r'), x.n(R)), lt(x.n('c'), x.n(C))), alias=al, **free)
            yield Ob(n + '_rows', lambda x, R=R: x.n(R), alias=al, **free)
            yield Ob(n + '_cols', lambda x, C=C: x.n(C), alias=al, **free)
    inm = lambda R, C: lambda x: band(lt(x.n('r'), x.n(R)), lt(x.n('c'), x.n(C)))
    for n, f in (('w_mmap', lambda x, e: x.fn('f', e)), ('w_mwrap', None), ('w_mwrapwrap', None)):
        def exp(x, f=f):
            e = x.entry('l', x.n('r'), x.n('c'))
            return f(x, e) if f else e
        yield Ob(n, exp, pre=inm('rows(l)', 'cols(l)'), **free)
        yield Ob(n + '_rows', lambda x: x.n('rows(l)'), **free)
        yield Ob(n + '_cols', lambda x: x.n('cols(l)'), **free)
    yield Ob('w_mnest', lambda x: eapp('sub', eapp('add', x.entry('a', x.n('r'), x.n('c')), x.dm('b', x.n('r'), x.n('c'))), x.dm('d', x.n('r'), x.n('c'))),
             pre=inm('rows(a)', 'cols(a)'), alias={'b.num_rows': 'rows(a)', 'b.num_cols': 'cols(a)', 'd.num_rows': 'rows(a)', 'd.num_cols': 'cols(a)'}, **free)
    for n in ('w_dv', 'w_dvr', 'w_sl'):
        yield Ob(n + '_entry', lambda x: ein('v', i(x)), pre=lambda x: lt(i(x), x.len('v')), **free)
        yield Ob(n + '_len', lambda x: x.len('v'), **free)
    for n in ('w_dm', 'w_dmr'):
        yield Ob(n + '_entry', lambda x: x.dm('m', x.n('r'), x.n('c')), pre=inm('m.num_rows', 'm.num_cols'), **free)
        yield Ob(n + '_rows', lambda x: x.n('m.num_rows'), **free)
        yield Ob(n + '_cols', lambda x: x.n('m.num_cols'), **free)
    yield Ob('w_arr_entry', lambda x: ein('m', x.n('r'), x.n('c')), pre=inm('R', 'C'), **free)
    yield Ob('w_arr_rows', lambda x: x.n('R'), **free)
    yield Ob('w_arr_cols', lambda x: x.n('C'), **free)


def d04(W):
    r, c = lambda x: x.n('r'), lambda x: x.n('c')
    for k in ('w', 'd'):
        R, C = ('rows(m)', 'cols(m)') if k == 'w' else ('m.num_rows', 'm.num_cols')
        at = lambda x, i, j, k=k: x.entry('m', i, j) if k == 'w' else x.dm('m', i, j)
        pre = lambda x, R=R, C=C: band(lt(r(x), x.n(C)), lt(c(x), x.n(R)))
        yield Ob('w_t_' + k, lambda x, at=at: at(x, c(x), r(x)), pre=pre)
        yield Ob('w_h_' + k, lambda x, at=at: x.app('conj', at(x, c(x), r(x))), pre=pre)
        for n in ('t', 'h'):
            yield Ob('w_%s_%s_rows' % (n, k), lambda x, C=C: x.n(C))
            yield Ob('w_%s_%s_cols' % (n, k), lambda x, R=R: x.n(R))
        yield Ob('w_diag_' + k, lambda x, at=at: at(x, x.n('i'), x.n('i')), pre=lambda x, R=R, C=C: band(lt(x.n('i'), x.n(R)), lt(x.n('i'), x.n(C))))
        yield Ob('w_diag_%s_len' % k, lambda x, R=R, C=C: imin(x.n(R), x.n(C)))
        yield Ob('w_diag_%s_is_empty' % k, lambda x, R=R, C=C: bor(eqi(x.n(R), P0), eqi(x.n(C), P0)))
        v = lambda x, i, k=k: x.entry('v', i) if k == 'w' else ein('v', i)
        yield Ob('w_vdiag_' + k, lambda x, v=v: merge(eqi(r(x), c(x)), v(x, r(x)), E0), pre=lambda x: band(lt(r(x), x.len('v')), lt(c(x), x.len('v'))))
        yield Ob('w_vdiag_%s_rows' % k, lambda x: x.len('v'))
        yield Ob('w_vdiag_%s_cols' % k, lambda x: x.len('v'))


def d05(W):
    al = {'r.num_rows': 'l.num_cols'}
    inner = lambda x: x.n('l.num_cols')
    inr = lambda x: band(lt(x.n('i'), x.n('l.num_rows')), lt(x.n('j'), x.n('r.num_cols')))
    ent = lambda x, i, j: x.sum(inner(x), lambda k: emul(x.dm('l', i, k), x.dm('r', k, j)))
    yield Ob('w_matmul_entry', lambda x: ent(x, x.n('i'), x.n('j')), pre=lambda x: band(inr(x), le(P1, inner(x))), alias=al)
    yield Ob('w_matmul_entry', lambda x: E0, pre=lambda x: band(inr(x), eqi(inner(x), P0)), alias=al, key='w_matmul_entry:inner dimension 0')
    yield Ob('w_matmul_rows', lambda x: x.n('l.num_rows'), alias=al)
    yield Ob('w_matmul_cols', lambda x: x.n('r.num_cols'), alias=al)
    yield Ob('w_matmul_eval', lambda x: x.matrix(x.n('l.num_rows'), x.n('r.num_cols'), lambda i, j: ent(x, i, j)), alias=al, pre=lambda x: le(P1, inner(x)))


def d06(W):
    i = lambda x: x.n('i')
    inv = lambda e: lambda x: lt(i(x), x.len(e))
    inm = lambda R, C: lambda x: band(lt(x.n('r'), x.n(R)), lt(x.n('c'), x.n(C)))
    vec = lambda n, f: lambda x: x.wrap(x.seq(x.n(n), lambda q: f(x, q)))
    yield Ob('w_v_eval', vec('len(e)', lambda x, q: x.entry('e', q)))
    yield Ob('w_v_eval_len', lambda x: x.len('e'))
    yield Ob('w_v_eval_entry', lambda x: x.entry('e', i(x)), pre=inv('e'))
    yield Ob('w_v_wrap_eval_entry', lambda x: x.entry('e', i(x)), pre=inv('e'))
    yield Ob('w_v_fn_eval_entry', lambda x: x.fn('f', i(x)), pre=lambda x: lt(i(x), x.n('n')))
    yield Ob('w_v_fn_eval_len', lambda x: x.n('n'))
    for n in ('w_dv_eval', 'w_dvr_eval', 'w_slice_eval'):
        yield Ob(n, vec('len(v)', lambda x, q: ein('v', q)))
    yield Ob('w_array_slice_eval', vec('N', lambda x, q: ein('v', q)))
    yield Ob('w_v_sum_eval', vec('len(a)', lambda x, q: eadd(ein('a', q), ein('b', q))), alias={'len(b)': 'len(a)'})
    yield Ob('w_m_eval_rows', lambda x: x.n('rows(e)'))
    yield Ob('w_m_eval_cols', lambda x: x.n('cols(e)'))
    for n in ('w_m_eval_entry', 'w_m_eval_index', 'w_m_wrap_eval_entry'):
        yield Ob(n, lambda x: x.entry('e', x.n('r'), x.n('c')), pre=inm('rows(e)', 'cols(e)'))
    yield Ob('w_m_fn_eval_entry', lambda x: x.fn('f', x.n('r'), x.n('c')), pre=inm('m', 'n'))
    dm = lambda x: x.matrix(x.n('m.num_rows'), x.n('m.num_cols'), lambda r, c: x.dm('m', r, c))
    yield Ob('w_dm_eval', dm)
    yield Ob('w_dmr_eval', dm)
    yield Ob('w_m_eval', lambda x: x.matrix(x.n('rows(e)'), x.n('cols(e)'), lambda r, c: x.entry('e', r, c)))
    yield Ob('w_array_eval', lambda x: x.matrix(x.n('R'), x.n('C'), lambda r, c: ein('m', r, c)))
    yield Ob('w_array_eval_entry', lambda x: ein('m', x.n('r'), x.n('c')), pre=inm('R', 'C'))
    yield Ob('w_m_t_eval_entry', lambda x: x.dm('m', x.n('c'), x.n('r')), pre=inm('m.num_cols', 'm.num_rows'))
    yield Ob('w_m_write_read', lambda x: ein('v'), pre=inm('m.num_rows', 'm.num_cols'))


def d07(W):
    i = lambda x: lt(x.n('i'), x.n('n'))
    rc = lambda x: band(lt(x.n('r'), x.n('m')), lt(x.n('c'), x.n('n')))
    for n, f in (('zeros', lambda x: E0), ('ones', lambda x: E1), ('same', lambda x: ein('v'))):
        yield Ob('w_v' + n, f, pre=i)
        yield Ob('w_v%s_len' % n, lambda x: x.n('n'))
        yield Ob('w_m' + n, f, pre=rc)
        yield Ob('w_m%s_rows' % n, lambda x: x.n('m'))
        yield Ob('w_m%s_cols' % n, lambda x: x.n('n'))
    yield Ob('w_eye', lambda x: merge(eqi(x.n('r'), x.n('c')), E1, E0), pre=lambda x: band(lt(x.n('r'), x.n('n')), lt(x.n('c'), x.n('n'))))
    yield Ob('w_eye_rows', lambda x: x.n('n'))
    yield Ob('w_eye_cols', lambda x: x.n('n'))
    yield Ob('w_vfn', lambda x: x.fn('f', x.n('i')), pre=i)
    yield Ob('w_vfn_len', lambda x: x.n('n'))
    yield Ob('w_mfn', lambda x: x.fn('f', x.n('r'), x.n('c')), pre=rc)
    yield Ob('w_mfn_rows', lambda x: x.n('m'))
    yield Ob('w_mfn_cols', lambda x: x.n('n'))
    yield Ob('w_vzeros_eval', lambda x: x.wrap(x.seq(x.n('n'), lambda q: E0)))
    yield Ob('w_eye_eval', lambda x: x.matrix(x.n('n'), x.n('n'), lambda r, c: merge(eqi(r, c), E1, E0)))


def d08(W):
    for op, f in (('add', eadd), ('sub', esub)):
        yield Ob('w_v_%s_assign' % op, lambda x, f=f: x.wrap(x.seq(x.len('l'), lambda q: f(ein('l', q), x.entry('r', q)))), at='l', alias={'len(r)': 'len(l)'})
        yield Ob('w_v_%s_assign_d' % op, lambda x, f=f: x.wrap(x.seq(x.len('l'), lambda q: f(ein('l', q), ein('r', q)))), at='l', alias={'len(r)': 'len(l)'})
        R, C = 'l.num_rows', 'l.num_cols'
        yield Ob('w_m_%s_assign' % op, lambda x, f=f: x.matrix(x.n(R), x.n(C), lambda i, j: f(x.dm('l', i, j), x.entry('r', i, j))), at='l',
                 alias={'rows(r)': R, 'cols(r)': C})
        yield Ob('w_m_%s_assign_d' % op, lambda x, f=f: x.matrix(x.n(R), x.n(C), lambda i, j: f(x.dm('l', i, j), x.dm('r', i, j))), at='l',
                 alias={'r.num_rows': R, 'r.num_cols': C})


def d09(W):
    for n in ('w_dot', 'w_dot_ref'):
        yield Ob(n, lambda x: x.sum(x.len('l'), lambda k: emul(x.app('conj', ein('l', k)), ein('r', k))), alias={'len(r)': 'len(l)'})


def d10(W):
    inm = lambda x: band(lt(x.n('r'), x.n('m.num_rows')), lt(x.n('c'), x.n('m.num_cols')))
    yield Ob('w_v_index_mut', lambda x: x.wrap(x.seq(x.len('v'), lambda q: merge(eqi(q, x.n('i')), ein('x'), ein('v', q)))), at='v', pre=lambda x: lt(x.n('i'), x.len('v')))
    yield Ob('w_m_index_mut', lambda x: x.matrix(x.n('m.num_rows'), x.n('m.num_cols'), lambda i, j: merge(band(eqi(i, x.n('r')), eqi(j, x.n('c'))), ein('x'), x.dm('m', i, j))),
             at='m', pre=inm)
    for op in ('add', 'sub'):
        yield Ob('w_v_%s_assign' % op, custom=shape_v('l', lambda x: x.len('l')), panic='ignore')
        yield Ob('w_m_%s_assign' % op, custom=shape_m('l', lambda x: (x.n('l.num_rows'), x.n('l.num_cols'))), panic='ignore')
    yield Ob('w_v_index_mut', custom=shape_v('v', lambda x: x.len('v')), panic='ignore', key='w_v_index_mut:shape')
    yield Ob('w_m_index_mut', custom=shape_m('m', lambda x: (x.n('m.num_rows'), x.n('m.num_cols'))), panic='ignore', key='w_m_index_mut:shape')
    mm = lambda x: (x.n('m.num_rows'), x.n('m.num_cols'))
    for n, f in (('w_m_eval', lambda x: (x.n('rows(e)'), x.n('cols(e)'))), ('w_dm_eval', mm), ('w_dmr_eval', mm), ('w_dm_clone', mm), ('w_array_eval', lambda x: (x.n('R'), x.n('C')))):
        yield Ob(n, custom=shape_m('val', f))
    yield Ob('w_dm_clone', lambda x: x.matrix(*mm(x), lambda r, c: x.dm('m', r, c)), key='w_dm_clone:entries')
    yield Ob('w_dv_clone', lambda x: x.wrap(x.seq(x.len('m'), lambda q: ein('m', q))))


# ================================================================ ring laws
def r04(W, po=False):
    def other(root):
        def f(x):
            r = RUN.run_root(x.W, root, x.I.mode, x.I.inst, x.I.concrete, limit=25.0)
            if r.panics or r.st is None:
                raise IP.Giveup('%s may panic' % root)
            return r.val
        return f
    for t in ('po',) if po else ('cx', 'sm'):
        for l in ('assoc', 'comm', 'neg', 'massoc', 'ldist', 'rdist'):
            n = 'w_%s_%s_' % (t, l)
            yield Ob(n + 'l', other(n + 'r'), key='w_%s_%s' % (t, l))


# ================================================================ copies and comparison
def v01(W):
    eq = lambda a, b: relb('eq', a, b)
    def seqs(n, a, b):
        return forall_lt(n, lambda k: eq(a(k), b(k)))
    two = lambda nm: band(eq(comp('a', 're'), comp('b', 're')), eq(comp('a', 'im'), comp('b', 'im')))
    E = {
        'complex': two,
        'svector': lambda x: seqs(x.n('N'), lambda k: ein('a', k), lambda k: ein('b', k)),
        'smatrix': lambda x: forall_lt(x.n('R'), lambda r: seqs(x.n('C'), lambda c: ein('a', r, c), lambda c: ein('b', r, c))),
        'dvector': lambda x: band(eqi(x.len('a'), x.len('b')), seqs(x.len('a'), lambda k: ein('a', k), lambda k: ein('b', k))),
        'dmatrix': lambda x: band(eqi(x.n('a.num_rows'), x.n('b.num_rows')), eqi(x.n('a.num_cols'), x.n('b.num_cols')),
                                  seqs(pmul(x.n('a.num_rows'), x.n('a.num_cols')), lambda k: ein('a.data', k), lambda k: ein('b.data', k))),
    }
    for n, f in E.items():
        yield Ob('w_%s_eq' % n, f)
        yield Ob('w_%s_ne' % n, lambda x, f=f: bnot(f(x)))
    S = {
        'complex': lambda x, a: x.cplx(comp(a, 're'), comp(a, 'im')),
        'polynomial': lambda x, a: x.wrap(x.seq(x.len(a), lambda k: ein(a, k))),
        'svector': lambda x, a: x.wrap(x.seq(x.n('N'), lambda k: ein(a, k))),
        'smatrix': lambda x, a: x.wrap(x.seq(x.n('R'), lambda r: x.seq(x.n('C'), lambda c: ein(a, r, c)))),
        'dvector': lambda x, a: x.wrap(x.seq(x.len(a), lambda k: ein(a, k))),
        'dmatrix': lambda x, a: x.matrix(x.n(a + '.num_rows'), x.n(a + '.num_cols'), lambda r, c: x.dm(a, r, c)),
    }
    for n, f in S.items():
        yield Ob('w_%s_clone' % n, lambda x, f=f: f(x, 'a'))
        if n in ('polynomial', 'dvector', 'dmatrix'):
            yield Ob('w_%s_clone_from' % n, lambda x, f=f: f(x, 'b'), at='a')


def forall_lt(n, f):
    k = fresh('k')
    return forall(k, bimp(lt(pa(k), n), f(pa(k))))


def verdict(eqs, p, dom, what):
    """all pairs equal under p"""
    und = None
    for a, b in eqs:
        e = eqv(a, b, p)
        if e is True:
            continue
        if not a.hasu:
            ce = evalt.counterexample(a, b, p, dom)
            if ce is not None:
                return Outcome(VIOLATED, what, {'found': describe(a), 'expected': describe(b), 'example': assign(ce)})
        und = describe(a, 300)
    return Outcome(PROVED) if und is None else Outcome(UNDEC, what + ' not excluded: ' + und)


def shape_m(at, f):
    def g(x, r, pre):
        v = r.val if at == 'val' else r.mem.get(at)
        if v is None or v.k != 'Agg':
            return Outcome(UNDEC, 'value not determined')
        L = x.layout()
        data, ints = L.leaves(v)
        d = {'data': data, 'rows': ints[L.rows], 'cols': ints[L.cols]}
        rows, cols = f(x)
        n = gmap(d['data'], lambda l: seqlen(l) if l.k == 'Seq' else U('data'))
        return verdict([(d['rows'], rows), (d['cols'], cols), (n, pmul(rows, cols))], band(pre, r.st.pc), 'nc', 'the shape changes')
    return g


def shape_v(at, f):
    def g(x, r, pre):
        v = r.val if at == 'val' else r.mem.get(at)
        n = gmap(seqof(v), lambda l: seqlen(l) if l.k == 'Seq' else U('data'))
        return verdict([(n, f(x))], band(pre, r.st.pc), 'nc', 'the length changes')
    return g


# ================================================================ when operands are read
def happenings(evs, loops=(), conds=TRUE):
    """(who, at, condition, loops, site) of every read in an event tree"""
    for e in evs:
        if e.kind == 'read':
            yield e.data[0], e.data[1], band(conds, e.cond), loops, e.data[2]
        elif e.kind == 'loop':
            t, T, S, sub = e.data[:4]
            yield from happenings(sub, loops + ((t, T),), band(conds, e.cond, lt(pa(t), T) if T is not None else TRUE))


def unrolled(evs):
    """the reads of a run for fixed sizes, in order; None if their number is not determined"""
    out = []

    def go(evs, m):
        for e in evs:
            if e.kind == 'read':
                out.append((e.data[0], tuple(subst(v, m) for v in e.data[1]), subst(e.cond, m), e.data[2]))
            elif e.kind == 'loop':
                t, T, S, sub = e.data[:4]
                n = pconst(subst(T, m)) if T is not None else None
                if n is None or n > 400:
                    return False
                for k in range(n):
                    if go(sub, {**m, t: pc(k)}) is False:
                        return False
    return None if go(evs, {}) is False else out


def places(at, cond):
    """the index polynomials an argument list determines, a row and a column of one flat index as that index"""
    out = []

    def go(v):
        if v.k == 'P':
            out.append(v)
        elif v.k == 'E' and len(v.a) == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0].a[1] == 'app':
            for y in v.a[0][0][0].a[3]:
                go(y)
        elif v.k == 'E' and len(v.a) == 1 and len(v.a[0][0]) == 1 and v.a[0][0][0].a[1] == 'in':
            for y in v.a[0][0][0].a[3:]:
                if isinstance(y, terms.N):
                    go(y)
                elif type(y) is tuple:
                    for z in y:
                        if isinstance(z, terms.N):
                            go(z)
        elif v.k == 'Agg':
            for y in v.a[1]:
                go(y)
    for v in at:
        go(v)
    flat = []
    for a in out:
        for b in out:
            if len(a.a) == 1 and len(b.a) == 1 and a.a[0][1] == b.a[0][1] == 1 and len(a.a[0][0]) == len(b.a[0][0]) == 1:
                x, y = a.a[0][0][0], b.a[0][0][0]
                if x.k == y.k == 'atom' and x.a[1] == 'idiv' and y.a[1] == 'imod' and x.a[2:] == y.a[2:]:
                    flat.append(x.a[2])
    for a in out:
        x = a.a[0][0][0] if len(a.a) == 1 and a.a[0][1] == 1 and len(a.a[0][0]) == 1 else None
        if x is not None and x.k == 'atom' and x.a[1] in ('idiv', 'imod') and entails(cond, eqi(idiv(*x.a[2:4]), imod(*x.a[2:4]))):
            flat.append(x.a[2])       # on the diagonal the row determines the flat index
    return out + flat


def unread(x, r, pre):
    """no operand is read"""
    if r.I.unknown_calls:
        return Outcome(UNDEC, 'calls %s' % list(r.I.unknown_calls)[:3])
    for who, at, c, loops, site in happenings(r.events):
        c = simpb(band(pre, c), TRUE)
        if c is FALSE or not feasible(c):
            continue
        if c is TRUE and (not loops or r.I.concrete):
            return Outcome(VIOLATED, 'reads an entry of %s or calls it at %s before any entry is asked for' % (who, site))
        w = evalt.counterexample(c, None, TRUE, 'free', trials=300, want=True)
        if w is not None and surely(None, c):
            return Outcome(VIOLATED, 'reads an entry of %s or calls it at %s before any entry is asked for' % (who, site), {'example': assign(w)})
        return Outcome(UNDEC, 'a read of %s at %s is not excluded' % (who, site))
    return Outcome(PROVED)


def read_once(x, r, pre):
    """no place of an operand is read twice"""
    if r.I.unknown_calls:
        return Outcome(UNDEC, 'calls %s' % list(r.I.unknown_calls)[:3])
    if r.st is None:
        return Outcome(UNDEC, 'never returns')
    if r.I.concrete:
        ev = unrolled(r.events)
        if ev is None:
            return Outcome(UNDEC, 'reads not determined')
        seen = {}
        for who, at, c, site in ev:
            c = simpb(band(pre, c), TRUE)
            if c is FALSE:
                continue
            if any(v.hasu for v in at):
                return Outcome(UNDEC, 'a read of %s at %s' % (who, site))
            for c2, site2 in seen.get((who, at), ()):
                b = band(c, c2)
                if b is TRUE:
                    return Outcome(VIOLATED, 'reads %s at (%s) twice, at %s and %s' % (who, ', '.join(describe(v, 60) for v in at), site2, site))
                if feasible(b):
                    return Outcome(UNDEC, 'a second read of %s at %s' % (who, site))
            seen.setdefault((who, at), []).append((c, site))
        return Outcome(PROVED, data={'reads': len(ev)})
    evs = [e for e in happenings(r.events) if feasible(band(pre, e[2]))]
    for i, (w1, a1, c1, l1, s1) in enumerate(evs):
        if any(T is None for _, T in l1) or any(v.hasu for v in a1):
            return Outcome(UNDEC, 'reads of %s at %s are not determined' % (w1, s1))
        for j, (w2, a2, c2, l2, s2) in enumerate(evs):
            if j < i or w1 != w2 or len(a1) != len(a2):
                continue
            m = {t: pa(fresh('u')) for t, _ in l2}
            b2 = [subst(v, m) for v in a2]
            c = band(pre, c1, subst(c2, m))
            p1, p2 = places(a1, band(pre, c1)), places(b2, band(pre, subst(c2, m)))
            if len(p1) != len(p2):
                continue
            for p, q in zip(p1, p2):
                c = band(c, eqi(p, q))
            if i == j:      # another iteration
                ds = [band(c, lt(pa(t), m[t])) for t, _ in l1]
            else:
                ds = [c]
            for d in ds:
                if feasible(simpb(d, TRUE)):
                    return Outcome(UNDEC, 'reads of %s at %s and %s may meet: %s' % (w1, s1, s2, describe(d, 200)))
    return Outcome(PROVED, data={'read_sites': len(evs)})


def applied(v, out, seen):
    """(name, arguments) of every entry of an operand and every result of a given function inside a value"""
    if not isinstance(v, terms.N):
        if type(v) in (tuple, list):
            for y in v:
                applied(y, out, seen)
        return
    if v.id in seen:
        return
    seen.add(v.id)
    if v.k == 'atom' and v.a[1] == 'app':
        n, args = v.a[2], v.a[3]
        if n == 'entry':
            out.add((models.oname(args[0]), tuple(args[1:])))
        else:
            out.add((models.oname(n) if isinstance(n, terms.N) else n, tuple(args)))
    applied(v.a, out, seen)


def read_needed(x, r, pre):
    """no place of an operand is read twice, and only places whose entry occurs in the result are read"""
    o = read_once(x, r, pre)
    if o.status != PROVED or r.val is None:
        return o
    if r.val.hasu:
        return Outcome(UNDEC, 'the result is not determined')
    have = set()
    applied(r.val, have, set())
    for who, at, c, loops, site in happenings(r.events):
        c = simpb(band(pre, c), TRUE)
        if c is FALSE or not feasible(c) or any(v.k != 'P' for v in at):
            continue
        if loops and not r.I.concrete:
            return Outcome(UNDEC, 'reads %s in a loop at %s' % (who, site))
        if (who, at) in have or any(w == who and len(p) == len(at) and all(v.k == 'P' for v in p)
                                    and entails(c, band(*[eqi(u, v) for u, v in zip(p, at)])) for w, p in have):
            continue
        if r.I.concrete and not loops and c is TRUE and all(pconst(v) is not None for v in at) \
                and all(pconst(v) is not None for w, p in have if w == who for v in p):
            return Outcome(VIOLATED, 'reads %s at (%s), at %s, for a result made of its entries at %s' % (
                who, ', '.join(describe(v, 60) for v in at), site,
                ', '.join('(%s)' % ', '.join(describe(v, 60) for v in p) for w, p in sorted(have, key=lambda t: str(t[1])) if w == who) or 'no position'))
        return Outcome(UNDEC, 'a read of %s at (%s), at %s, is not seen in the result' % (who, ', '.join(describe(v, 60) for v in at), site))
    return o


def l01(pid):
    def f(W):
        for ob in SPECS[pid](W):
            if ob.panic != 'none' or ob.at != 'val' or ob.mode == 'comm' or ob.custom or ob.exp is None:
                continue
            lazy = ob.root.endswith(('_len', '_rows', '_cols', '_is_empty')) and '_eval' not in ob.root
            yield Ob(ob.root, pre=ob.pre, mode=ob.mode, alias=ob.alias, sizes=ob.sizes, panic='ignore', reads=True, custom=unread if lazy else read_once if '_eval' in ob.root else read_needed,
                     key=ob.id + (':nothing read' if lazy else ':read once'))
    return f


def l01own(W):
    for n in W['roots']:
        m = n.startswith('w_m_')
        al = {'rows(b)': 'rows(a)', 'cols(b)': 'cols(a)'} if m else {'len(b)': 'len(a)'}
        if n.endswith('_assign'):
            al = {'rows(r)': 'l.num_rows', 'cols(r)': 'l.num_cols'} if m else {'len(r)': 'len(l)'}
        if n == 'w_v_nest':
            al['n'] = 'len(a)'
        if n == 'w_m_nest':
            al.update(m='cols(a)', n='rows(a)')
        yield Ob(n, mode='free', alias=al, panic='ignore', reads=True, custom=read_once, key=n + ':read once')


# ================================================================ scalar functions
def f01(W):
    for t in ('f32', 'f64'):
        for f in ('asin', 'cos', 'cosh', 'exp', 'ln', 'sin', 'sinh', 'tan', 'abs', 'abs_ref', 'sqrt'):
            yield Ob('w_%s_%s' % (t, f), lambda x, t=t, f=f: eapp('%s::%s' % (t, f.split('_')[0]), ein('x')), mode='ieee')
        yield Ob('w_%s_atan2' % t, lambda x, t=t: eapp('%s::atan2' % t, ein('y'), ein('x')), mode='ieee')


def f02(W):
    def ack(x):
        a, b = ein('x'), ein('y')
        pi = eapp('pi')
        half = lambda e: escale(e, Fraction(1, 2))
        r = x.app('sqrt', half(eadd(emul(a, a), emul(b, b))))
        c = half(eadd(x.app('cos', escale(emul(pi, a), 2)), x.app('cos', escale(emul(pi, b), 2))))
        e = escale(x.app('exp', escale(r, Fraction(-1, 5))), -20)
        return eadd(eadd(esub(e, x.app('exp', c)), eapp('euler')), ec(20))
    yield Ob('w_ackley', ack, mode='comm')


SPECS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07,
         'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'R01': r01, 'R03': r03,
         'S01': s01, 'S02': s02, 'S03': s03, 'S04': s04, 'S05': s05,
         'D01': d01, 'D02': d02, 'D03': d03, 'D04': d04, 'D05': d05, 'D06': d06, 'D07': d07, 'D08': d08, 'D09': d09, 'D10': d10,
         'F01': f01, 'F02': f02, 'L01': l01own, 'L01d03': l01('D03'), 'L01d04': l01('D04'), 'L01d06': l01('D06'), 'L01d07': l01('D07'), 'V01': v01, 'R04': r04, 'R04po': lambda W: r04(W, True)}

MODULE = {'R04po': 'r04', 'L01d03': 'd03', 'L01d04': 'd04', 'L01d06': 'd06', 'L01d07': 'd07'}
# decided on the client functions of several modules
PARTS = {'L01': ['L01', 'L01d03', 'L01d04', 'L01d06', 'L01d07']}
# a law that follows from formulas decided elsewhere; it is only examined by itself where those do not hold
FORMULA = {'R04': (['P02', 'P03'], 'R04po')}
UNION = {'E02': ['P01', 'P02', 'P03', 'S01', 'S02', 'S03', 'S04', 'S05', 'D01', 'D02', 'D03', 'D04', 'D05', 'D06', 'D07', 'D08', 'D09', 'D10', 'C01', 'C02', 'C03', 'C05', 'C06', 'R01']}
_V = ('the value summary of each client function, derived from the MIR for all sizes and values, has the same normal form as the specified term; '
      'where it has not, the rule is violated if a concrete instance of both terms differs, and undecided otherwise. ')
RULE = {
    'C01': _V + 'Specified: both components of sum, difference, negation, conjugation and of the operations with a real operand, per spelling.',
    'C02': _V + 'Specified: (ac - bd, ad + bc) over non-commuting coefficients, scaling on the right, and the compound spelling.',
    'C03': _V + 'Specified: quotient times divisor = dividend in the field of fractions over commuting coefficients, per spelling; quotient by a real operand per component.',
    'C04': _V + 'Specified: re*re + im*im, sqrt of it, atan2(im, re), the standard functions being uninterpreted.',
    'C05': _V + 'Specified: the formulas in the real functions (uninterpreted, with parity rules); tan as the quotient sin/cos.',
    'C06': _V + 'Specified: (ln(re*re + im*im)/2, atan2(im, re)), the standard functions being uninterpreted with the laws of ln and sqrt.',
    'C07': 'on each path the square of the result, with sqrt(x)^2 = x and the sign conditions of the path, reduces to the argument; signs of the parts follow from sqrt >= 0 and the path conditions.',
    'P01': _V + 'Specified: the sum of a[k] * x^k over all k (Horner recurrences are solved as linear recurrences).',
    'P02': _V + 'Specified: entry k for k below the longer length, an absent coefficient being zero, per spelling; the length as observed by equality (P04).',
    'P03': _V + 'Specified: the convolution sum over i + j = k for every k, a polynomial without coefficients giving zero.',
    'P04': _V + 'Specified: the conjunction of a[k] = b[k] over the common positions and of zero over the rest of the longer one.',
    'R01': _V + 'Specified: adding the zero and multiplying by the one of the structure gives the element itself, from both sides.',
    'R03': _V + 'Specified: the product and quotient term in operand order; conjugation of each real scalar type is the identity.',
    'R04': 'the summaries of both sides of each law have the same normal form over the ring of the entries (non-commuting); for polynomials the laws follow from the formulas of P02 and P03, '
           'which are decided instead, and the law itself is examined if they do not hold.',
    'S01': _V + 'Specified: component k for every k below the symbolic dimension, per spelling.',
    'S02': _V + 'Specified: the sum over k below the symbolic dimension of l[k] * r[k], zero for dimension 0.',
    'S03': _V + 'Specified: component k at position k of indexing and of each iterator, and the store through each.',
    'S04': _V + 'Specified: entry (i, j) for symbolic numbers of rows and columns, per spelling.',
    'S05': _V + 'Specified: the sum over k of l(i,k) * r(k,j) over the whole symbolic inner dimension in operand order, per spelling.',
    'D01': 'the disjunction of the panic conditions of each combining operation is the negation of equal dimensions, and no read of an entry or store is feasible before it with unequal ones.',
    'D02': 'the disjunction of the panic conditions of each access is the negation of being in range, for every machine integer (checked and unchecked arithmetic).',
    'D03': _V + 'Specified: shape and entry at a symbolic position, over operand expressions known only by their interface.',
    'D04': _V + 'Specified: shape and entry at a symbolic position: t(r,c) = m(c,r), h(r,c) = conj m(c,r), diagonals.',
    'D05': _V + 'Specified: the sum over k of l(r,k) * r(k,c), and the shape.',
    'D06': _V + 'Specified: for each kind of expression, evaluation gives its shape and its entry at every position; evaluation of a materialised one gives itself.',
    'D07': _V + 'Specified: shape and value at a symbolic position.',
    'D08': _V + 'Specified: old entry plus or minus the entry of the expression at every position, shape unchanged.',
    'D09': _V + 'Specified: the sum over k of conj(l[k]) * r[k], per spelling.',
    'D10': _V + 'Specified: after a store through an index only the addressed entry differs and the shape is the same, and ' + rules.RULETEXT['D10'],
    'V01': _V + 'Specified: the clone equals the original and leaves it alone; comparison is the conjunction of the comparisons of all components and of the shapes.',
    'F01': 'the summary of each function for f32 and f64 is exactly the standard function of the same type applied to the argument (no conversion, order of arguments kept).',
    'F02': _V + 'Specified: the published formula over the reals.',
    'E02': 'every panic edge (assertion, bounds, unwrap, slice and copy lengths, explicit panics, division, arithmetic overflow of positions) that the client functions of the value properties '
           'reach is infeasible under their premise of fitting operands.',
    'L01': 'the summary records each read of an operand expression and each call of a given function with its position, path condition and enclosing loops: none is feasible at construction and '
           'in queries of the shape; otherwise two reads at the same position by different sites, or by different rounds of the same loops, are infeasible. A single entry is read only at positions whose operand entry occurs in the summarised result.',
}
