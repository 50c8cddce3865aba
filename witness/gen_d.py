#!/usr/bin/env python3
"""Writes the witness modules of the dynamic linear algebra properties."""
import os
here = os.path.dirname(os.path.abspath(__file__))
P = 'include!("prelude.rs");\n'

class K:  # operand kind
    def __init__(s, vec):
        s.vec = vec
        s.X = 'VectorExpr' if vec else 'MatrixExpr'
        s.W = 'VectorExprWrapper' if vec else 'MatrixExprWrapper'
        s.D = 'DVector' if vec else 'DMatrix'
        s.p = 'v' if vec else 'm'
        s.idx = 'i: usize' if vec else 'r: usize, c: usize'
        s.ent = 'entry(i)' if vec else 'entry(r, c)'

OPS = [('add', 'Add', '+'), ('sub', 'Sub', '-'), ('mul_elemwise', 'Mul', None), ('div_elemwise', 'Div', None)]

def shape_fns(k, name, gen, args, where, expr):
    o = ''
    if k.vec:
        o += f"pub fn w_{name}_len{gen}({args}) -> usize {where} {{ ({expr}).len() }}\n"
        o += f"pub fn w_{name}_is_empty{gen}({args}) -> bool {where} {{ ({expr}).is_empty() }}\n"
    else:
        o += f"pub fn w_{name}_rows{gen}({args}) -> usize {where} {{ ({expr}).num_rows() }}\n"
        o += f"pub fn w_{name}_cols{gen}({args}) -> usize {where} {{ ({expr}).num_cols() }}\n"
    return o

def binops(k, body):
    """yields (name, gen, args, where, expr, outty)"""
    for n, tr, sym in OPS:
        e = (lambda l, r: f"{l} {sym} {r}") if sym else (lambda l, r: f"{l}.{n}({r})")
        yield (f"{k.p}w_{n}", f"<L: {k.X}, R: {k.X}>", f"lhs: {k.W}<L>, rhs: R", f"where L::Entry: {tr}<R::Entry>",
               e('lhs', 'rhs'), f"<L::Entry as {tr}<R::Entry>>::Output")
        yield (f"{k.p}d_{n}", f"<T: Clone + {tr}<R::Entry>, R: {k.X}>", f"lhs: &{k.D}<T>, rhs: R", "",
               e('lhs', 'rhs'), f"<T as {tr}<R::Entry>>::Output")
    yield (f"{k.p}w_zip", f"<L: {k.X}, R: {k.X}>", f"lhs: {k.W}<L>, rhs: R", "", "lhs.zip(rhs)", "(L::Entry, R::Entry)")

# ---- D01
o = P
for k in (K(True), K(False)):
    for n, g, a, w, e, t in binops(k, None):
        o += f"pub fn w_{n}{g}({a}) {w} {{ let _e = {e}; }}\n"
        # the entry is only ever read after the operands were accepted
        o += f"pub fn w_{n}_entry{g}({a}, {k.idx}) -> {t} {w} {{ ({e}).{k.ent} }}\n"
    for n, tr, sym in (('add', 'AddAssign', '+='), ('sub', 'SubAssign', '-=')):
        o += f"pub fn w_{k.p}_{n}_assign<T: {tr}<R::Entry> + Clone, R: {k.X}>(l: &mut {k.D}<T>, r: R) {{ *l {sym} r }}\n"
DOT = "T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero"
o += f"pub fn w_dot<{DOT}>(l: DVector<T>, r: DVector<T>) -> T {{ l * r }}\n"
o += f"pub fn w_dot_ref<{DOT}>(l: &DVector<T>, r: &DVector<T>) -> T {{ l * r }}\n"
MM = "T: Mul<T> + Clone"
MW = "where <T as Mul<T>>::Output: AddAssign"
o += f"pub fn w_matmul<{MM}>(l: &DMatrix<T>, r: &DMatrix<T>) {MW} {{ let _e = l * r; }}\n"
o += f"pub fn w_matmul_entry<{MM}>(l: &DMatrix<T>, r: &DMatrix<T>, i: usize, j: usize) -> <T as Mul<T>>::Output {MW} {{ (l * r).entry(i, j) }}\n"
open(f'{here}/d01.rs', 'w').write(o)

# ---- D02
o = P + '''
pub fn w_dv_entry<T: Clone>(v: DVector<T>, i: usize) -> T { v.entry(i) }
pub fn w_dv_entry_ref<T: Clone>(v: &DVector<T>, i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_dv_index<T>(v: &DVector<T>, i: usize) -> &T { &v[i] }
pub fn w_dv_index_mut<T>(v: &mut DVector<T>, i: usize, x: T) { v[i] = x }
pub fn w_dv_wrap_entry<T: Clone>(v: DVector<T>, i: usize) -> T { v.wrap().entry(i) }
pub fn w_slice_entry<T: Clone>(v: &[T], i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_array_slice_entry<T: Clone, const N: usize>(v: [T; N], i: usize) -> T { v.wrap().entry(i) }
pub fn w_dm_entry<T: Clone>(m: DMatrix<T>, r: usize, c: usize) -> T { m.entry(r, c) }
pub fn w_dm_entry_ref<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { MatrixExpr::entry(&m, r, c) }
pub fn w_dm_index<T>(m: &DMatrix<T>, r: usize, c: usize) -> &T { &m[[r, c]] }
pub fn w_dm_index_mut<T>(m: &mut DMatrix<T>, r: usize, c: usize, x: T) { m[[r, c]] = x }
pub fn w_dm_wrap_entry<T: Clone>(m: DMatrix<T>, r: usize, c: usize) -> T { m.wrap().entry(r, c) }
pub fn w_array_entry<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R], r: usize, c: usize) -> T { m.entry(r, c) }
'''
open(f'{here}/d02.rs', 'w').write(o)

# ---- D03
o = P
for k in (K(True), K(False)):
    for n, g, a, w, e, t in binops(k, None):
        o += f"pub fn w_{n}{g}({a}, {k.idx}) -> {t} {w} {{ ({e}).{k.ent} }}\n"
        o += shape_fns(k, n, g, a, w, e)
    o += f"pub fn w_{k.p}map<L: {k.X}, U, F: Fn(L::Entry) -> U>(l: {k.W}<L>, f: F, {k.idx}) -> U {{ l.map(f).{k.ent} }}\n"
    o += shape_fns(k, f"{k.p}map", f"<L: {k.X}, U, F: Fn(L::Entry) -> U>", f"l: {k.W}<L>, f: F", "", "l.map(f)")
    o += f"pub fn w_{k.p}wrap<L: {k.X}>(l: L, {k.idx}) -> L::Entry {{ l.wrap().{k.ent} }}\n"
    o += shape_fns(k, f"{k.p}wrap", f"<L: {k.X}>", "l: L", "", "l.wrap()")
    o += f"pub fn w_{k.p}wrapwrap<L: {k.X}>(l: {k.W}<L>, {k.idx}) -> L::Entry {{ l.wrap().{k.ent} }}\n"
    o += shape_fns(k, f"{k.p}wrapwrap", f"<L: {k.X}>", f"l: {k.W}<L>", "", "l.wrap()")
    # nested composition
    o += f"pub fn w_{k.p}nest<T: Clone + Add<Output = T> + Sub<Output = T>, L: {k.X}<Entry = T>>(a: {k.W}<L>, b: &{k.D}<T>, d: &{k.D}<T>, {k.idx}) -> T {{ ((a + b) - d).{k.ent} }}\n"
k = K(True)
o += "pub fn w_vconj<L: VectorExpr>(l: VectorExprWrapper<L>, i: usize) -> L::Entry where L::Entry: Conj { l.conj().entry(i) }\n"
o += shape_fns(k, "vconj", "<L: VectorExpr>", "l: VectorExprWrapper<L>", "where L::Entry: Conj", "l.conj()")
o += "pub fn w_vdconj<T: Clone + Conj>(l: &DVector<T>, i: usize) -> T { l.conj().entry(i) }\n"
o += shape_fns(k, "vdconj", "<T: Clone + Conj>", "l: &DVector<T>", "", "l.conj()")
# leaves: reading materialised operands
o += '''
pub fn w_dv_entry<T: Clone>(v: DVector<T>, i: usize) -> T { v.entry(i) }
pub fn w_dv_len<T: Clone>(v: DVector<T>) -> usize { v.len() }
pub fn w_dvr_entry<T: Clone>(v: &DVector<T>, i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_dvr_len<T: Clone>(v: &DVector<T>) -> usize { VectorExpr::len(&v) }
pub fn w_sl_entry<T: Clone>(v: &[T], i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_sl_len<T: Clone>(v: &[T]) -> usize { VectorExpr::len(&v) }
pub fn w_dm_entry<T: Clone>(m: DMatrix<T>, r: usize, c: usize) -> T { m.entry(r, c) }
pub fn w_dm_rows<T: Clone>(m: DMatrix<T>) -> usize { m.num_rows() }
pub fn w_dm_cols<T: Clone>(m: DMatrix<T>) -> usize { m.num_cols() }
pub fn w_dmr_entry<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { MatrixExpr::entry(&m, r, c) }
pub fn w_dmr_rows<T: Clone>(m: &DMatrix<T>) -> usize { MatrixExpr::num_rows(&m) }
pub fn w_dmr_cols<T: Clone>(m: &DMatrix<T>) -> usize { MatrixExpr::num_cols(&m) }
pub fn w_arr_entry<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R], r: usize, c: usize) -> T { m.entry(r, c) }
pub fn w_arr_rows<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> usize { m.num_rows() }
pub fn w_arr_cols<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> usize { m.num_cols() }
'''
open(f'{here}/d03.rs', 'w').write(o)

# ---- D04
o = P
kv, km = K(True), K(False)
for n, src, gen, w in (('w', 'MatrixExprWrapper<L>', '<L: MatrixExpr>', ''), ('d', '&DMatrix<T>', '<T: Clone>', '')):
    ent = 'L::Entry' if n == 'w' else 'T'
    o += f"pub fn w_t_{n}{gen}(m: {src}, r: usize, c: usize) -> {ent} {{ m.t().entry(r, c) }}\n"
    o += shape_fns(km, f"t_{n}", gen, f"m: {src}", "", "m.t()")
    hg = '<L: MatrixExpr>' if n == 'w' else '<T: Clone + Conj>'
    hw = 'where L::Entry: Conj' if n == 'w' else ''
    o += f"pub fn w_h_{n}{hg}(m: {src}, r: usize, c: usize) -> {ent} {hw} {{ m.h().entry(r, c) }}\n"
    o += shape_fns(km, f"h_{n}", hg, f"m: {src}", hw, "m.h()")
    o += f"pub fn w_diag_{n}{gen}(m: {src}, i: usize) -> {ent} {{ m.diag().entry(i) }}\n"
    o += shape_fns(kv, f"diag_{n}", gen, f"m: {src}", "", "m.diag()")
for n, src, gen, w, ent in (('w', 'VectorExprWrapper<L>', '<L: VectorExpr>', 'where L::Entry: Zero', 'L::Entry'), ('d', '&DVector<T>', '<T: Clone + Zero>', '', 'T')):
    o += f"pub fn w_vdiag_{n}{gen}(v: {src}, r: usize, c: usize) -> {ent} {w} {{ v.diag().entry(r, c) }}\n"
    o += shape_fns(km, f"vdiag_{n}", gen, f"v: {src}", w, "v.diag()")
open(f'{here}/d04.rs', 'w').write(o)

# ---- D05
o = P
o += f"pub fn w_matmul_entry<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>, i: usize, j: usize) -> T {{ (l * r).entry(i, j) }}\n"
o += f"pub fn w_matmul_rows<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>) -> usize {{ (l * r).num_rows() }}\n"
o += f"pub fn w_matmul_cols<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>) -> usize {{ (l * r).num_cols() }}\n"
o += f"pub fn w_matmul_eval<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>) -> DMatrix<T> {{ (l * r).eval() }}\n"
open(f'{here}/d05.rs', 'w').write(o)

# ---- D06
o = P + '''
pub fn w_v_eval<E: VectorExpr>(e: E) -> DVector<E::Entry> { Ov(e).eval() }
pub fn w_v_eval_len<E: VectorExpr>(e: E) -> usize where E::Entry: Clone { Ov(e).eval().len() }
pub fn w_v_eval_entry<E: VectorExpr>(e: E, i: usize) -> E::Entry where E::Entry: Clone { Ov(e).eval().entry(i) }
pub fn w_v_wrap_eval_entry<E: VectorExpr>(e: E, i: usize) -> E::Entry where E::Entry: Clone { Ov(e).wrap().eval().entry(i) }
pub fn w_v_fn_eval_entry<T: Clone, F: Fn(usize) -> T>(n: usize, f: F, i: usize) -> T { make_vector_expr(n, f).eval().entry(i) }
pub fn w_v_fn_eval_len<T: Clone, F: Fn(usize) -> T>(n: usize, f: F) -> usize { make_vector_expr(n, f).eval().len() }
pub fn w_dv_eval<T: Clone>(v: DVector<T>) -> DVector<T> { v.eval() }
pub fn w_dvr_eval<T: Clone>(v: &DVector<T>) -> DVector<T> { VectorExpr::eval(v) }
pub fn w_slice_eval<T: Clone>(v: &[T]) -> DVector<T> { v.eval() }
pub fn w_array_slice_eval<T: Clone, const N: usize>(v: [T; N]) -> DVector<T> { v.eval() }
pub fn w_v_sum_eval<T: Clone + Add<Output = T>>(a: &DVector<T>, b: &DVector<T>) -> DVector<T> { (a + b).eval() }
pub fn w_m_eval<E: MatrixExpr>(e: E) -> DMatrix<E::Entry> { Om(e).eval() }
pub fn w_m_eval_rows<E: MatrixExpr>(e: E) -> usize where E::Entry: Clone { Om(e).eval().num_rows() }
pub fn w_m_eval_cols<E: MatrixExpr>(e: E) -> usize where E::Entry: Clone { Om(e).eval().num_cols() }
pub fn w_m_eval_entry<E: MatrixExpr>(e: E, r: usize, c: usize) -> E::Entry where E::Entry: Clone { Om(e).eval().entry(r, c) }
pub fn w_m_eval_index<E: MatrixExpr>(e: E, r: usize, c: usize) -> E::Entry where E::Entry: Clone { Om(e).eval()[[r, c]].clone() }
pub fn w_m_wrap_eval_entry<E: MatrixExpr>(e: E, r: usize, c: usize) -> E::Entry where E::Entry: Clone { Om(e).wrap().eval().entry(r, c) }
pub fn w_m_fn_eval_entry<T: Clone, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F, r: usize, c: usize) -> T { make_matrix_expr(m, n, f).eval().entry(r, c) }
pub fn w_dm_eval<T: Clone>(m: DMatrix<T>) -> DMatrix<T> { m.eval() }
pub fn w_dmr_eval<T: Clone>(m: &DMatrix<T>) -> DMatrix<T> { MatrixExpr::eval(m) }
pub fn w_array_eval<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> DMatrix<T> { m.eval() }
pub fn w_array_eval_entry<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R], r: usize, c: usize) -> T { m.eval().entry(r, c) }
pub fn w_m_t_eval_entry<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { m.t().eval().entry(r, c) }
pub fn w_m_write_read<T: Clone>(m: &DMatrix<T>, r: usize, c: usize, v: T) -> T { let mut a = MatrixExpr::eval(m); a[[r, c]] = v; a.entry(r, c) }
'''
open(f'{here}/d06.rs', 'w').write(o)

# ---- D07
o = P
for n, g, call in (('zeros', 'T: Zero', 'zeros'), ('ones', 'T: One', 'ones')):
    o += f"pub fn w_v{n}<{g}>(n: usize, i: usize) -> T {{ DVector::<T>::{call}(n).entry(i) }}\n"
    o += f"pub fn w_v{n}_len<{g}>(n: usize) -> usize {{ DVector::<T>::{call}(n).len() }}\n"
    o += f"pub fn w_m{n}<{g}>(m: usize, n: usize, r: usize, c: usize) -> T {{ DMatrix::<T>::{call}(m, n).entry(r, c) }}\n"
    o += f"pub fn w_m{n}_rows<{g}>(m: usize, n: usize) -> usize {{ DMatrix::<T>::{call}(m, n).num_rows() }}\n"
    o += f"pub fn w_m{n}_cols<{g}>(m: usize, n: usize) -> usize {{ DMatrix::<T>::{call}(m, n).num_cols() }}\n"
o += '''
pub fn w_vsame<T: Clone>(n: usize, v: T, i: usize) -> T { DVector::same(n, v).entry(i) }
pub fn w_vsame_len<T: Clone>(n: usize, v: T) -> usize { DVector::same(n, v).len() }
pub fn w_msame<T: Clone>(m: usize, n: usize, v: T, r: usize, c: usize) -> T { DMatrix::same(m, n, v).entry(r, c) }
pub fn w_msame_rows<T: Clone>(m: usize, n: usize, v: T) -> usize { DMatrix::same(m, n, v).num_rows() }
pub fn w_msame_cols<T: Clone>(m: usize, n: usize, v: T) -> usize { DMatrix::same(m, n, v).num_cols() }
pub fn w_eye<T: Zero + One>(n: usize, r: usize, c: usize) -> T { DMatrix::<T>::eye(n).entry(r, c) }
pub fn w_eye_rows<T: Zero + One>(n: usize) -> usize { DMatrix::<T>::eye(n).num_rows() }
pub fn w_eye_cols<T: Zero + One>(n: usize) -> usize { DMatrix::<T>::eye(n).num_cols() }
pub fn w_vfn<T, F: Fn(usize) -> T>(n: usize, f: F, i: usize) -> T { make_vector_expr(n, f).entry(i) }
pub fn w_vfn_len<T, F: Fn(usize) -> T>(n: usize, f: F) -> usize { make_vector_expr(n, f).len() }
pub fn w_mfn<T, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F, r: usize, c: usize) -> T { make_matrix_expr(m, n, f).entry(r, c) }
pub fn w_mfn_rows<T, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F) -> usize { make_matrix_expr(m, n, f).num_rows() }
pub fn w_mfn_cols<T, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F) -> usize { make_matrix_expr(m, n, f).num_cols() }
pub fn w_vzeros_eval<T: Zero>(n: usize) -> DVector<T> { DVector::<T>::zeros(n).eval() }
pub fn w_eye_eval<T: Zero + One>(n: usize) -> DMatrix<T> { DMatrix::<T>::eye(n).eval() }
'''
open(f'{here}/d07.rs', 'w').write(o)

# ---- D08
o = P
for k in (kv, km):
    for n, tr, sym in (('add', 'AddAssign', '+='), ('sub', 'SubAssign', '-=')):
        o += f"pub fn w_{k.p}_{n}_assign<T: {tr}<R::Entry> + Clone, R: {k.X}>(l: &mut {k.D}<T>, r: R) {{ *l {sym} r }}\n"
        o += f"pub fn w_{k.p}_{n}_assign_d<T: {tr}<T> + Clone>(l: &mut {k.D}<T>, r: &{k.D}<T>) {{ *l {sym} r }}\n"
open(f'{here}/d08.rs', 'w').write(o)

# ---- D09
DOT = "T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero"
o = P
o += f"pub fn w_dot<{DOT}>(l: DVector<T>, r: DVector<T>) -> T {{ l * r }}\n"
o += f"pub fn w_dot_ref<{DOT}>(l: &DVector<T>, r: &DVector<T>) -> T {{ l * r }}\n"
open(f'{here}/d09.rs', 'w').write(o)

# ---- D10
o = P + '''
pub fn w_v_index_mut<T>(v: &mut DVector<T>, i: usize, x: T) { v[i] = x }
pub fn w_m_index_mut<T>(m: &mut DMatrix<T>, r: usize, c: usize, x: T) { m[[r, c]] = x }
pub fn w_v_add_assign<T: AddAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l += r }
pub fn w_v_sub_assign<T: SubAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l -= r }
pub fn w_m_add_assign<T: AddAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l += r }
pub fn w_m_sub_assign<T: SubAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l -= r }
pub fn w_m_eval<E: MatrixExpr>(e: E) -> DMatrix<E::Entry> { Om(e).eval() }
pub fn w_dm_eval<T: Clone>(m: DMatrix<T>) -> DMatrix<T> { m.eval() }
pub fn w_dmr_eval<T: Clone>(m: &DMatrix<T>) -> DMatrix<T> { MatrixExpr::eval(m) }
pub fn w_dm_clone<T: Clone>(m: &DMatrix<T>) -> DMatrix<T> { m.clone() }
pub fn w_dv_clone<T: Clone>(m: &DVector<T>) -> DVector<T> { m.clone() }
pub fn w_array_eval<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> DMatrix<T> { m.eval() }
'''
open(f'{here}/d10.rs', 'w').write(o)

# ---- O
o = P + '''
pub fn w_de<T, const N: usize, R: rand::Rng, C: FnMut(&[T; N], &[T; N]) -> bool>(
    bounds: &[(T, T); N], population_size: usize, crossover_probability: f32, differential_weight: T,
    num_iters: usize, rng: &mut R, cmp: C,
) -> [T; N]
where
    T: PartialOrd + Clone + Copy + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + rand::distributions::uniform::SampleUniform,
    f32: Into<T>, i8: Into<T>,
{
    magnesia::optimize::differential_evolution(bounds, population_size, crossover_probability, differential_weight, num_iters, rng, cmp)
}
'''
open(f'{here}/o.rs', 'w').write(o)
