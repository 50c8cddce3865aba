#!/usr/bin/env python3
"""Writes the client programs of the type-level properties: `ok_` functions have to compile, `no_` functions must not.

T01: every no_ function is an ok_ function with one dimension replaced, so the dimension is what it is refused for.
"""
import os
here = os.path.dirname(os.path.abspath(__file__))
HEAD = 'include!("prelude.rs");\n'
B = "T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>"


def t01():
    o = [HEAD.strip()]
    # operand kinds: (name, lhs, rhs, body); {0}.. are dimension slots; fit: slots that agree
    V, M = 'SVector<T, %s>', 'SMatrix<T, %s, %s>'

    def gen(name, args, body, fits, nslots, ret=None, expect=None):
        """fits(dims) tells whether the program has to compile"""
        import itertools
        # symbolic dimensions: every pattern of equal and different parameters
        letters = 'JKLMN'[:nslots]
        seen = set()
        for pat in itertools.product(letters, repeat=nslots):
            # canonical patterns only
            m, can = {}, []
            for c in pat:
                m.setdefault(c, letters[len(m)])
                can.append(m[c])
            if tuple(can) in seen:
                continue
            seen.add(tuple(can))
            ps = ''.join(', const %s: usize' % c for c in sorted(set(can)))
            k = 'ok' if fits(can) else 'no'
            r = ' -> ' + ret.format(*can) if ret else ''
            o.append('pub fn %s_%s_%s<%s%s>(%s)%s { %s }' % (k, name, ''.join(can), B, ps, args.format(*can), r, body))
        vals = ['0', '1', '2', '3'] if nslots <= 2 else ['1', '2']
        for dims in itertools.product(vals, repeat=nslots):
            if fits(dims):
                continue
            r = ' -> ' + ret.format(*dims) if ret else ''
            o.append('pub fn no_%s_%s<%s>(%s)%s { %s }' % (name, '_'.join(dims), B, args.format(*dims), r, body))
        o.append('pub fn no_%s_far(%s)%s { %s }' % (name, args.replace('T', 'f64').format(*[str(3 + 4 * i) for i in range(nslots)]),
                                                   (' -> ' + ret.replace('T', 'f64').format(*[str(3 + 4 * i) for i in range(nslots)])) if ret else '', body))

    same2 = lambda d: d[0] == d[1]
    for op, s in (('add', '+'), ('sub', '-')):
        gen('v_%s' % op, 'a: SVector<T, {0}>, b: SVector<T, {1}>', 'let _ = a %s b;' % s, same2, 2)
        gen('v_%s_ref' % op, 'a: SVector<T, {0}>, b: &SVector<T, {1}>', 'let _ = a %s b;' % s, same2, 2)
        gen('v_%s_assign' % op, 'a: &mut SVector<T, {0}>, b: SVector<T, {1}>', '*a %s= b;' % s, same2, 2)
        gen('v_%s_assign_ref' % op, 'a: &mut SVector<T, {0}>, b: &SVector<T, {1}>', '*a %s= b;' % s, same2, 2)
        same4 = lambda d: d[0] == d[2] and d[1] == d[3]
        gen('m_%s' % op, 'a: SMatrix<T, {0}, {1}>, b: SMatrix<T, {2}, {3}>', 'let _ = a %s b;' % s, same4, 4)
        gen('m_%s_ref' % op, 'a: SMatrix<T, {0}, {1}>, b: &SMatrix<T, {2}, {3}>', 'let _ = a %s b;' % s, same4, 4)
        gen('m_%s_assign' % op, 'a: &mut SMatrix<T, {0}, {1}>, b: SMatrix<T, {2}, {3}>', '*a %s= b;' % s, same4, 4)
        gen('m_%s_assign_ref' % op, 'a: &mut SMatrix<T, {0}, {1}>, b: &SMatrix<T, {2}, {3}>', '*a %s= b;' % s, same4, 4)
    gen('v_dot', 'a: SVector<T, {0}>, b: SVector<T, {1}>', 'let _ = a * b;', same2, 2)
    gen('v_dot_ref', 'a: SVector<T, {0}>, b: &SVector<T, {1}>', 'let _ = a * b;', same2, 2)
    gen('v_eq', 'a: SVector<T, {0}>, b: SVector<T, {1}>', 'let _ = a == b;', same2, 2)
    gen('v_from', 'a: [T; {0}]', 'SVector::from(a)', same2, 2, ret='SVector<T, {1}>')
    fit = lambda d: d[1] == d[2]
    gen('m_mul', 'a: SMatrix<T, {0}, {1}>, b: SMatrix<T, {2}, {3}>', 'let _ = a * b;', fit, 4)
    gen('m_mul_ref', 'a: &SMatrix<T, {0}, {1}>, b: &SMatrix<T, {2}, {3}>', 'let _ = a * b;', fit, 4)
    gen('mv_mul', 'a: &SMatrix<T, {0}, {1}>, b: &SVector<T, {2}>', 'let _ = a * b;', fit, 3)
    sq = lambda d: d[1] == d[2] and d[2] == d[3]
    gen('m_mul_assign', 'a: &mut SMatrix<T, {0}, {1}>, b: SMatrix<T, {2}, {3}>', '*a *= b;', sq, 4)
    gen('m_mul_assign_ref', 'a: &mut SMatrix<T, {0}, {1}>, b: &SMatrix<T, {2}, {3}>', '*a *= b;', sq, 4)
    # shapes of the results
    gen('mm_shape', 'a: &SMatrix<T, {0}, {1}>, b: &SMatrix<T, {1}, {2}>', 'a * b', lambda d: d[3] == d[0] and d[4] == d[2], 5, ret='SMatrix<T, {3}, {4}>')
    gen('mv_shape', 'a: &SMatrix<T, {0}, {1}>, b: &SVector<T, {1}>', 'a * b', lambda d: d[2] == d[0], 3, ret='SVector<T, {2}>')
    gen('m_from', 'a: [[T; {1}]; {0}]', 'SMatrix::from(a)', lambda d: d[0] == d[2] and d[1] == d[3], 4, ret='SMatrix<T, {2}, {3}>')
    gen('m_neg', 'a: SMatrix<T, {0}, {1}>', '-a', lambda d: d[0] == d[2] and d[1] == d[3], 4, ret='SMatrix<T, {2}, {3}>')
    gen('m_conj', 'a: SMatrix<T, {0}, {1}>', 'a.conj()', lambda d: d[0] == d[2] and d[1] == d[3], 4, ret='SMatrix<T, {2}, {3}>')
    gen('m_eq', 'a: SMatrix<T, {0}, {1}>, b: SMatrix<T, {2}, {3}>', 'let _ = a == b;', lambda d: d[0] == d[2] and d[1] == d[3], 4)
    # what an operand may not be
    return o


def t02():
    o = [HEAD.strip(), 'pub trait Number: Field + Conj + Clone + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + AddAssign + SubAssign {}', 'pub fn need_copy<X: Copy>() {}', 'pub fn need_clone<X: Clone>() {}', 'pub fn need_send<X: Send>() {}', 'pub fn need_sync<X: Sync>() {}',
         'pub fn need_static<X: \'static>() {}', 'pub fn need_eq<X: Eq>() {}', 'pub fn need_partialeq<X: PartialEq>() {}', 'pub fn need_debug<X: std::fmt::Debug>() {}',
         'pub fn val_send<X: Send>(_: X) {}', 'pub fn val_sync<X: Sync>(_: X) {}', 'pub fn need_unwind<X: std::panic::UnwindSafe>() {}']
    S = {'complex': ('', 'Complex<T>'), 'svector': (', const N: usize', 'SVector<T, N>'), 'smatrix': (', const R: usize, const C: usize', 'SMatrix<T, R, C>'),
         'polynomial': ('', 'Polynomial<T>'), 'dvector': ('', 'DVector<T>'), 'dmatrix': ('', 'DMatrix<T>')}
    traits = {'send': 'Send', 'sync': 'Sync', 'clone': 'Clone', 'partialeq': 'PartialEq', 'eq': 'Eq', 'debug': 'std::fmt::Debug', 'static': "'static", 'unwind': 'std::panic::UnwindSafe'}
    for n, (g, t) in S.items():
        for k, tr in traits.items():
            b = tr + (' + Ring' if n == 'polynomial' else '')
            o.append('pub fn ok_%s_%s<T: %s%s>() { need_%s::<%s>() }' % (n, k, b, g, k, t))
        if n in ('complex', 'svector', 'smatrix'):
            o.append('pub fn ok_%s_copy<T: Copy%s>() { need_copy::<%s>() }' % (n, g, t))
        # conversely, what an entry cannot do its structure cannot either
        if n != 'polynomial':
            for k, e in (('send', 'std::rc::Rc<i32>'), ('sync', 'std::cell::Cell<i32>'), ('copy', 'String'), ('eq', 'f64')):
                o.append('pub fn no_%s_%s_of_%s%s() { need_%s::<%s>() }' % (n, k, e.split('<')[0].split(':')[-1].lower(), '<' + g[2:] + '>' if g else '', k, t.replace('T', e)))
    # lazy expressions
    for k, tr in (('send', 'Send'), ('sync', 'Sync')):
        o.append('pub fn ok_vexpr_%s<T: %s + Clone + Zero + One>(n: usize, v: T) { val_%s(DVector::same(n, v)); val_%s(DVector::<T>::zeros(n)); val_%s(DVector::<T>::ones(n)) }' % (k, tr, k, k, k))
        o.append('pub fn ok_mexpr_%s<T: %s + Clone + Zero + One>(n: usize, v: T) { val_%s(DMatrix::same(n, n, v)); val_%s(DMatrix::<T>::zeros(n, n)); val_%s(DMatrix::<T>::ones(n, n)); val_%s(DMatrix::<T>::eye(n)) }' % (k, tr, k, k, k, k))
        o.append('pub fn ok_vfn_%s<F: Fn(usize) -> T + %s, T>(n: usize, f: F) { val_%s(make_vector_expr(n, f)) }' % (k, tr, k))
        o.append('pub fn ok_mfn_%s<F: Fn(usize, usize) -> T + %s, T>(n: usize, f: F) { val_%s(make_matrix_expr(n, n, f)) }' % (k, tr, k))
        for op in ('a.wrap() + b', 'a.wrap() - b', 'a.wrap().mul_elemwise(b)', 'a.wrap().div_elemwise(b)', 'a.wrap().conj()'):
            w = 'mul' if 'mul' in op else 'div' if 'div' in op else 'add' if '+' in op else 'sub' if '-' in op else 'conj'
            for V in ('Vector', 'Matrix')[:1 if w == 'conj' else 2]:
                o.append('pub fn ok_%s_%s_%s<T: Number, A: %sExpr<Entry = T> + %s, B: %sExpr<Entry = T> + %s>(a: A, b: B) { let _ = &b; val_%s(%s) }'
                         % (V.lower(), w, k, V, tr, V, tr, k, op))
        for op in ('t', 'h', 'diag'):
            o.append('pub fn ok_matrix_%s_%s<A: MatrixExpr + %s>(a: A) where A::Entry: Field + Conj { val_%s(a.wrap().%s()) }' % (op, k, tr, k, op))
        o.append('pub fn ok_vector_diag_%s<A: VectorExpr + %s>(a: A) where A::Entry: Field + Conj { val_%s(a.wrap().diag()) }' % (k, tr, k))
        o.append('pub fn ok_vector_map_%s<A: VectorExpr + %s, F: Fn(A::Entry) -> O + %s, O>(a: A, f: F) { val_%s(a.wrap().map(f)) }' % (k, tr, tr, k))
        o.append('pub fn ok_matrix_map_%s<A: MatrixExpr + %s, F: Fn(A::Entry) -> O + %s, O>(a: A, f: F) { val_%s(a.wrap().map(f)) }' % (k, tr, tr, k))
        o.append('pub fn ok_dmatrix_product_%s<T: Number + Sync>(a: &DMatrix<T>, b: &DMatrix<T>) { val_%s(a * b) }' % (k, k))
    return o


for m, f in (('t01', t01), ('t02', t02)):
    ls = f()
    open(os.path.join(here, m + '.rs'), 'w').write('\n'.join(ls) + '\n')
    print(m, len(ls))
