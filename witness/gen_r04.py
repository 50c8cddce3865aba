"""writes r04.rs: both sides of every ring law for every structure"""
import os
LAWS = {'assoc': ('add(&add(a, b), c)', 'add(a, &add(b, c))'), 'comm': ('add(a, b)', 'add(b, a)'), 'neg': ('sub(a, b)', 'add(a, &-b.clone())'),
        'massoc': ('a.mul_refs(b).mul_refs(c)', 'a.mul_refs(&b.mul_refs(c))'),
        'ldist': ('a.mul_refs(&add(b, c))', 'add(&a.mul_refs(b), &a.mul_refs(c))'),
        'rdist': ('add(a, b).mul_refs(c)', 'add(&a.mul_refs(c), &b.mul_refs(c))')}
TYPES = {'cx': ('Complex<T>', 'T: Ring'), 'po': ('Polynomial<T>', 'T: Ring'), 'sm': ('SMatrix<T, N, N>', 'T: Ring, const N: usize')}
o = 'include!("prelude.rs");\nfn add<X: Ring>(a: &X, b: &X) -> X { let mut s = a.clone(); s += b; s }\nfn sub<X: Ring>(a: &X, b: &X) -> X { let mut s = a.clone(); s -= b; s }\n'
for t, (ty, g) in TYPES.items():
    for l, (x, y) in LAWS.items():
        for s, e in (('l', x), ('r', y)):
            o += 'pub fn w_%s_%s_%s<%s>(%s) -> %s { %s }\n' % (t, l, s, g, ', '.join('%s: &%s' % (v, ty) for v in 'abc'), ty, e)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r04.rs'), 'w').write(o)
