"""Hash-consed terms of the abstract domain.

  P   integer polynomials over integer atoms
  B   boolean functions (reduced ordered BDDs) over boolean atoms
  E   element expressions: rational combinations of words (non-commutative
      products) of element atoms; commutative when CFG.comm is set
  Atom, Agg, Enum, Seq, G (guarded alternatives), Ptr, Fn, U (unknown)

All nodes are interned, so equality of normal forms is identity.
"""
import os
from fractions import Fraction
from math import gcd


class Cfg:
    comm = False      # commutative multiplication
    exact = True      # exact arithmetic (ring laws hold)
    ieee = False      # floating point operations kept apart, by precision
    ord = None        # None | 'exact' (total order) | 'float' (partial order with NaN)


CFG = Cfg()

_tab = {}
ORDER = int(os.environ.get('VX_ORDER', '1'))      # another order of iteration, for tests
_ctr = [0]
EMPTY = frozenset()


class N:
    __slots__ = ('k', 'a', 'id', 'deps', 'h', 'hasu', 'x')

    def __hash__(self):       # not the address: the analysis takes the same steps in every run
        return self.id * ORDER

    def __repr__(self):
        return show(self)


def _deps(a, out, hs):
    for x in a:
        if isinstance(x, N):
            if x.deps:
                out.update(x.deps)
            if x.h > hs[0]:
                hs[0] = x.h
            if x.hasu:
                hs[1] = True
        elif type(x) is tuple:
            _deps(x, out, hs)


def mk(k, a, selfdep=False, minus=None, binder=False):
    key = (k, a)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.k = k
        n.a = a
        _ctr[0] += 1
        n.id = _ctr[0]
        out = set()
        hs = [0, False]
        _deps(a, out, hs)
        n.deps = None
        if minus is not None:
            out.discard(minus)
        n.h = hs[0] + (1 if binder else 0)
        n.hasu = hs[1] or k == 'U'
        n.x = None
        if selfdep:
            out.add(n)
        n.deps = frozenset(out) if out else EMPTY
        _tab[key] = n
    return n


# ------------------------------------------------------------------ atoms
# an atom node has k='atom' and a=(sort, kind, *args); sort in i,e,b
def atom(sort, kind, *args):
    return mk('atom', (sort, kind) + args)


def leafatom(sort, kind, *args):
    return mk('atom', (sort, kind) + args, selfdep=True)


_fresh = [0]


def sym(name, nn=True):
    return leafatom('i', 'sym', name, nn)


def fresh(prefix='k', nn=True):
    _fresh[0] += 1
    return sym('%s~%d' % (prefix, _fresh[0]), nn)


def bound(level):
    return leafatom('i', 'bound', level)


def is_nn(at):
    """integer atom known to be non-negative"""
    a = at.a
    kd = a[1]
    if kd == 'sym':
        return a[3]
    if kd == 'bound':
        return True
    if kd in ('iapp', 'first'):
        return True
    if kd == 'phi':
        return a[4]
    if kd == 'imod' or kd == 'idiv':
        return True
    if kd in ('imin',):
        return evid_nn(a[2]) and evid_nn(a[3])
    if kd in ('imax',):
        return evid_nn(a[2]) or evid_nn(a[3])
    return False


# ------------------------------------------------------------------ P
def _pmk(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda t: (len(t[0]), [x.id for x in t[0]])))
    return mk('P', items)


def pc(n):
    return mk('P', (((), n),) if n != 0 else ())


P0 = pc(0)
P1 = pc(1)


def pa(at):
    return mk('P', (((at,), 1),))


def psym(name, nn=True):
    return pa(sym(name, nn))


def padd(p, q, s=1):
    if not q.a:
        return p
    if not p.a and s == 1:
        return q
    d = dict(p.a)
    for m, c in q.a:
        d[m] = d.get(m, 0) + s * c
    return _pmk(d)


def psub(p, q):
    return padd(p, q, -1)


def pscale(p, n):
    if n == 1:
        return p
    return _pmk({m: c * n for m, c in p.a})


def pneg(p):
    return pscale(p, -1)


def pmul(p, q):
    d = {}
    for m, c in p.a:
        for n, e in q.a:
            w = tuple(sorted(m + n, key=lambda x: x.id))
            if m and n:
                x = _divmono(w)
                if x is not None:
                    # b * (a div b) = a - a mod b
                    rest = list(w)
                    rest.remove(x)
                    for y in x.a[3].a[0][0]:
                        rest.remove(y)
                    rep = pmul(_pmk({tuple(rest): c * e}), psub(x.a[2], imod(x.a[2], x.a[3])))
                    for m2, c2 in rep.a:
                        d[m2] = d.get(m2, 0) + c2
                    continue
            d[w] = d.get(w, 0) + c * e
    return _pmk(d)


def _divmono(w):
    for x in w:
        if x.a[1] == 'idiv' and len(x.a[3].a) == 1:
            bm, c = x.a[3].a[0]
            if c != 1 or not bm:
                continue
            rest = list(w)
            rest.remove(x)
            for y in bm:
                if y not in rest:
                    break
                rest.remove(y)
            else:
                return x
    return None


def pconst(p):
    """int value if constant else None"""
    if not p.a:
        return 0
    if len(p.a) == 1 and p.a[0][0] == ():
        return p.a[0][1]
    return None


def pc0(p):
    return p.a[0][1] if p.a and p.a[0][0] == () else 0


def evid_nn(p):
    for m, c in p.a:
        if c < 0:
            return False
        for x in m:
            if not is_nn(x):
                return False
    return True


def evid_neg(p):
    return pc0(p) < 0 and evid_nn(padd(pneg(p), P1, -1))


def lin_in(p, at):
    """p == c*at + rest with integer c and rest free of at (also inside other atoms); else None"""
    c = 0
    rest = {}
    for m, k in p.a:
        if m == (at,):
            c = k
        else:
            for x in m:
                if at in x.deps:
                    return None
            rest[m] = k
    return c, _pmk(rest)


def idiv(a, b):
    ca, cb = pconst(a), pconst(b)
    if cb == 1:
        return a
    if ca is not None and cb:
        return pc(ca // cb)
    if ca == 0:
        return P0
    if a == b:
        return P1
    q, r = _divsplit(a, b)
    if q is not None:
        if r is P0:
            return q
    return pa(atom('i', 'idiv', a, b))


def imod(a, b):
    ca, cb = pconst(a), pconst(b)
    if cb == 1:
        return P0
    if ca is not None and cb:
        return pc(ca % cb)
    if ca == 0 or a == b:
        return P0
    q, r = _divsplit(a, b)
    if q is not None and r is P0:
        return P0
    return pa(atom('i', 'imod', a, b))


def _divsplit(a, b):
    """a = q*b + r by polynomial division when b is a monomial or constant"""
    if len(b.a) != 1:
        return None, None
    (bm, bc_), = b.a
    q = {}
    r = {}
    for m, c in a.a:
        mm = list(m)
        ok = True
        for x in bm:
            if x in mm:
                mm.remove(x)
            else:
                ok = False
                break
        if ok and c % bc_ == 0:
            w = tuple(mm)
            q[w] = q.get(w, 0) + c // bc_
        else:
            r[m] = c
    return _pmk(q), _pmk(r)


def imin(a, b):
    if a is b:
        return a
    d = psub(a, b)
    if evid_nn(d):
        return b
    if evid_nn(pneg(d)):
        return a
    if a.id > b.id:
        a, b = b, a
    return pa(atom('i', 'imin', a, b))


def imax(a, b):
    if a is b:
        return a
    d = psub(a, b)
    if evid_nn(d):
        return a
    if evid_nn(pneg(d)):
        return b
    if a.id > b.id:
        a, b = b, a
    return pa(atom('i', 'imax', a, b))


# ------------------------------------------------------------------ B
TRUE = mk('B', ('T',))
FALSE = mk('B', ('F',))


def _bnode(v, hi, lo):
    if hi is lo:
        return hi
    return mk('B', (v, hi, lo))


def _bvar(b):
    return b.a[0].id if len(b.a) == 3 else 1 << 60


_ite = {}


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    if g is f:
        g = TRUE
    if h is f:
        h = FALSE
    key = (f, g, h)
    r = _ite.get(key)
    if r is None:
        v = min((f, g, h), key=_bvar).a[0]
        f1, f0 = (f.a[1], f.a[2]) if f.a[0] is v else (f, f)
        g1, g0 = (g.a[1], g.a[2]) if g.a[0] is v else (g, g)
        h1, h0 = (h.a[1], h.a[2]) if h.a[0] is v else (h, h)
        r = _bnode(v, ite(f1, g1, h1), ite(f0, g0, h0))
        _ite[key] = r
    return r


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def bnot(x):
    return ite(x, FALSE, TRUE)


def bxor(x, y):
    return ite(x, bnot(y), y)


def bimp(x, y):
    return ite(x, y, TRUE)


def bat(at):
    return mk('B', (at, TRUE, FALSE))


def bapp(kind, *args):
    return bat(atom('b', kind, *args))


_restr = {}


def restrict(f, care):
    """simplify f assuming care (Coudert-Madre restrict)"""
    if care is FALSE or care is TRUE or f is TRUE or f is FALSE:
        return f
    key = (f, care)
    r = _restr.get(key)
    if r is not None:
        return r
    vf, vc = _bvar(f), _bvar(care)
    if vc < vf:
        # quantify the variable out of care
        r = restrict(f, bor(care.a[1], care.a[2]))
    else:
        v = f.a[0]
        c1, c0 = (care.a[1], care.a[2]) if vc == vf else (care, care)
        if c1 is FALSE:
            r = restrict(f.a[2], c0)
        elif c0 is FALSE:
            r = restrict(f.a[1], c1)
        else:
            r = _bnode(v, restrict(f.a[1], c1), restrict(f.a[2], c0))
    _restr[key] = r
    return r


def cofactor(f, v, val):
    if len(f.a) != 3 or f.a[0].id > v.id:
        return f
    if f.a[0] is v:
        return f.a[1] if val else f.a[2]
    return ite(bat(f.a[0]), cofactor(f.a[1], v, val), cofactor(f.a[2], v, val))


_supp = {}


def support(b):
    r = _supp.get(b)
    if r is None:
        if len(b.a) != 3:
            r = EMPTY
        else:
            r = support(b.a[1]) | support(b.a[2]) | {b.a[0]}
        _supp[b] = r
    return r


_must = {}


def must(b):
    """literals (atom, bool) implied by b propositionally"""
    r = _must.get(b)
    if r is None:
        if len(b.a) != 3:
            r = EMPTY
        else:
            v, hi, lo = b.a
            if lo is FALSE:
                r = must(hi) | {(v, True)}
            elif hi is FALSE:
                r = must(lo) | {(v, False)}
            else:
                r = must(hi) & must(lo)
        _must[b] = r
    return r


def cubes(b, limit=64):
    """yields lists of literals covering b"""
    out = []

    def go(n, acc):
        if n is FALSE:
            return
        if n is TRUE:
            out.append(acc)
            return
        if len(out) > limit:
            return
        go(n.a[1], acc + [(n.a[0], True)])
        go(n.a[2], acc + [(n.a[0], False)])

    go(b, [])
    return out


# integer relations ------------------------------------------------
def _norm(p):
    g = 0
    for m, c in p.a:
        if m != ():
            g = gcd(g, abs(c))
    return g


def ge0(p):
    """p >= 0"""
    c = pconst(p)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if evid_nn(p):
        return TRUE
    if evid_neg(p):
        return FALSE
    r = _extremum(p)
    if r is not None:
        return r
    g = _norm(p)
    if g > 1:
        p = _pmk({m: (k // g if m != () else k // g) for m, k in p.a})
    lead = next(k for m, k in p.a if m != ())
    if lead > 0:
        return bat(atom('b', 'ge0', p))
    q = padd(pneg(p), P1, -1)
    return bnot(bat(atom('b', 'ge0', q)))


def _extremum(p):
    """p >= 0 with one min or max in p, one side of which settles itself"""
    for m, k in p.a:
        if len(m) == 1 and k in (1, -1) and m[0].a[1] in ('imin', 'imax'):
            at = m[0]
            rest = padd(p, pa(at), -k)
            x, y = (ge0(padd(rest, s, k)) for s in at.a[2:4])
            if (at.a[1] == 'imin') == (k == 1):     # both sides must hold
                if x is TRUE or y is FALSE:
                    return y
                if y is TRUE or x is FALSE:
                    return x
            else:
                if x is FALSE or y is TRUE:
                    return y
                if y is FALSE or x is TRUE:
                    return x
    return None


def le(a, b):
    return ge0(psub(b, a))


def lt(a, b):
    return ge0(padd(psub(b, a), P1, -1))


def eqi(a, b):
    p = psub(a, b)
    c = pconst(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if evid_nn(p):
        return bnot(ge0(padd(p, P1, -1)))
    if evid_nn(pneg(p)):
        return bnot(ge0(padd(pneg(p), P1, -1)))
    g = _norm(p)
    if g > 1:
        if pc0(p) % g:
            return FALSE
        p = _pmk({m: k // g for m, k in p.a})
    lead = next(k for m, k in p.a if m != ())
    if lead < 0:
        p = pneg(p)
    return bat(atom('b', 'eq0', p))


# ------------------------------------------------------------------ E
def _emk(d):
    items = tuple(sorted(((w, c) for w, c in d.items() if c != 0), key=lambda t: (len(t[0]), [x.id for x in t[0]])))
    return mk('E', items)


def ec(n):
    n = Fraction(n)
    if n.denominator == 1:
        n = int(n)
    return mk('E', (((), n),) if n != 0 else ())


E0 = ec(0)
E1 = ec(1)


def ea(at):
    return mk('E', (((at,), 1),))


def ein(name, *idx):
    """input element"""
    return ea(leafless('e', 'in', name, tuple(idx)))


def leafless(sort, kind, *args):
    return atom(sort, kind, *args)


def eapp(f, *args):
    return ea(atom('e', 'app', f, tuple(args)))


def eadd(x, y, s=1):
    if not y.a:
        return x
    if not x.a and s == 1:
        return y
    d = dict(x.a)
    for w, c in y.a:
        d[w] = d.get(w, 0) + s * c
    return _emk(d)


def esub(x, y):
    return eadd(x, y, -1)


def escale(x, n):
    return _emk({w: c * n for w, c in x.a})


def eneg(x):
    return escale(x, -1)


def _powof(at):
    if at.a[1] == 'pow':
        return at.a[2], at.a[3]
    return at, P1


def _wjoin(u, v):
    """concatenate words; merges adjacent powers of the same atom"""
    if CFG.comm:
        d = {}
        for at in u + v:
            b, e = _powof(at)
            d[b] = padd(d.get(b, P0), e)
        w = []
        for b, e in d.items():
            c = pconst(e)
            if c == 0:
                continue
            if c is not None and 0 < c <= 12:
                w += [b] * c
            else:
                w.append(atom('e', 'pow', b, e))
        return tuple(sorted(w, key=lambda x: x.id))
    w = list(u)
    for at in v:
        if w and (at.a[1] == 'pow' or w[-1].a[1] == 'pow'):
            b1, e1 = _powof(w[-1])
            b2, e2 = _powof(at)
            if b1 is b2:
                w.pop()
                e = padd(e1, e2)
                c = pconst(e)
                if c is None:
                    w.append(atom('e', 'pow', b1, e))
                elif c > 0:
                    w += [b1] * c
                elif c < 0:
                    w.append(atom('e', 'pow', b1, e))
                continue
        w.append(at)
    return tuple(w)


def emul(x, y):
    d = {}
    for u, c in x.a:
        for v, e in y.a:
            w = _wjoin(u, v)
            d[w] = d.get(w, 0) + c * e
    return _emk(d)


def econst(x):
    if not x.a:
        return Fraction(0)
    if len(x.a) == 1 and x.a[0][0] == ():
        return Fraction(x.a[0][1])
    return None


def epow(x, p):
    """x to an integer power p (P)"""
    c = pconst(p)
    if c is not None and 0 <= c <= 64:
        r = E1
        for _ in range(c):
            r = emul(r, x)
        return r
    if x is E1:
        return E1
    if c is not None and c < 0:
        return epow(einv(x), pc(-c))
    if len(x.a) == 1 and x.a[0][1] == 1 and (len(x.a[0][0]) == 1 or CFG.comm):
        r = E1
        for at in x.a[0][0]:
            b, e = _powof(at)
            q = pmul(e, p)
            r = emul(r, ea(atom('e', 'pow', b, q)))
        return r
    return ea(atom('e', 'pow', atom('e', 'poly', x), p))


def einv(x):
    c = econst(x)
    if c is not None:
        if c == 0:
            return ea(atom('e', 'inv', x))
        return ec(1 / c)
    if len(x.a) == 1:
        w, c = x.a[0]
        if CFG.comm or len(w) == 1:
            r = ec(Fraction(1) / Fraction(c))
            for at in w:
                b, e = _powof(at)
                r = emul(r, ea(atom('e', 'pow', b, pneg(e))))
            return r
    lead = Fraction(x.a[-1][1])
    x = escale(x, 1 / lead)
    x = _emk({w: (int(Fraction(c)) if Fraction(c).denominator == 1 else Fraction(c)) for w, c in x.a})
    return escale(ea(atom('e', 'inv', x)), 1 / lead)


def _fixc(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


# ------------------------------------------------------------------ values
def agg(tag, fields):
    return mk('Agg', (tag, tuple(fields)))


UNIT = agg('tuple', ())


def enum(tag, cases):
    """cases: list of (variant index, cond B, fields tuple)"""
    cs = tuple(sorted(((v, c, tuple(f)) for v, c, f in cases if c is not FALSE), key=lambda t: t[0]))
    return mk('Enum', (tag, cs))


OPT = 'core::option::Option'


def none_():
    return enum(OPT, [(0, TRUE, ())])


def some(v, cond=TRUE):
    return enum(OPT, [(0, bnot(cond), ()), (1, cond, (v,))])


def lit(vals):
    vals = tuple(vals)
    return mk('Seq', (pc(len(vals)), 'lit', vals))


def seqfn(n, body, k):
    """sequence of length n whose element at position k (a fresh sym atom) is body"""
    lv = body.h + 1
    b = bound(lv)
    nb = subst(body, {k: pa(b)}) if k in body.deps else body
    key = (n, 'fn', lv, nb)
    return mk('Seq', key, minus=b, binder=True)


def mkseq(n, f):
    """f: P -> value"""
    c = pconst(n)
    if c is not None and c <= 6:
        return lit([f(pc(i)) for i in range(c)])
    k = fresh('k')
    return seqfn(n, f(pa(k)), k)


def seqlen(s):
    return s.a[0]


def fn_at(s, p):
    _, _, lv, body = s.a
    return subst(body, {bound(lv): p})


def U(reason):
    return mk('U', (reason,))


def ptr(root, path=()):
    return mk('Ptr', (root, tuple(path)))


def mkg(cases):
    """cases: dict leaf -> cond"""
    cs = {l: c for l, c in cases.items() if c is not FALSE}
    if len(cs) == 1:
        return next(iter(cs))
    tags = {l.a[0] if l.k == 'Enum' else None for l in cs}
    if len(tags) == 1 and None not in tags:
        d = {}
        for l, g in sorted(cs.items(), key=lambda t: t[0].id):
            for v, c, f in l.a[1]:
                c = band(g, c)
                if v in d:
                    c0, f0 = d[v]
                    d[v] = (bor(c0, c), tuple(_mm(c, y, x) for x, y in zip(f0, f)))
                else:
                    d[v] = (c, f)
        return enum(next(iter(tags)), [(v, c, f) for v, (c, f) in d.items()])
    return mk('G', (tuple(sorted(cs.items(), key=lambda t: t[0].id)),))


def gcases(v):
    if v.k == 'G':
        return v.a[0]
    return ((v, TRUE),)


def merge(c, a, b):
    """a if c else b"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is None or b is None:
        return a if b is None else b
    ka, kb = a.k, b.k
    if ka == 'B' and kb == 'B':
        return ite(c, a, b)
    if ka == kb == 'Agg' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        return agg(a.a[0], [_mm(c, x, y) for x, y in zip(a.a[1], b.a[1])])
    if ka == kb == 'Enum' and a.a[0] == b.a[0]:
        d = {}
        for v, cc, f in a.a[1]:
            d[v] = (band(c, cc), f)
        nc = bnot(c)
        for v, cc, f in b.a[1]:
            if v in d:
                c0, f0 = d[v]
                c1 = band(nc, cc)
                # within this variant, c decides the side
                d[v] = (bor(c0, c1), tuple(_mm(restrict(c, bor(c0, c1)) if False else c, x, y) for x, y in zip(f0, f)))
            else:
                d[v] = (band(nc, cc), f)
        return enum(a.a[0], [(v, cc, f) for v, (cc, f) in d.items()])
    if ka == kb == 'Seq' and a.a[0] is b.a[0]:
        if a.a[1] == 'lit' and b.a[1] == 'lit':
            return lit([_mm(c, x, y) for x, y in zip(a.a[2], b.a[2])])
        n = a.a[0]
        if a.a[1] == 'lit' or b.a[1] == 'lit':
            return lit([_mm(c, seqat(a, pc(i)), seqat(b, pc(i))) for i in range(pconst(n))])
        k = fresh('k')
        return seqfn(n, merge(c, seqat(a, pa(k)), seqat(b, pa(k))), k)
    d = {}
    for l, cc in gcases(a):
        d[l] = bor(d.get(l, FALSE), band(c, cc))
    nc = bnot(c)
    for l, cc in gcases(b):
        d[l] = bor(d.get(l, FALSE), band(nc, cc))
    return mkg(d)


def _mm(c, x, y):
    if x is None:
        return y
    if y is None:
        return x
    return merge(c, x, y)


def gmap(v, f):
    """apply f to every alternative"""
    if v.k != 'G':
        return f(v)
    r = None
    for l, c in v.a[0]:
        x = f(l)
        r = x if r is None else merge(c, x, r)
    return r


def gmap2(a, b, f):
    if a.k != 'G' and b.k != 'G':
        return f(a, b)
    return gmap(a, lambda x: gmap(b, lambda y: f(x, y)))


def seqat(s, p):
    """element at position p (no bounds check)"""
    if s.a[1] == 'lit':
        c = pconst(p)
        vals = s.a[2]
        if c is not None:
            if 0 <= c < len(vals):
                return vals[c]
            return U('out of range')
        if not vals:
            return U('out of range')
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = merge(eqi(p, pc(i)), vals[i], r)
        return r
    return fn_at(s, p)


def seqset(s, p, v):
    if s.a[1] == 'lit':
        c = pconst(p)
        vals = list(s.a[2])
        if c is not None:
            if 0 <= c < len(vals):
                vals[c] = v
            return lit(vals)
        return lit([merge(eqi(p, pc(i)), v, x) for i, x in enumerate(vals)])
    n = s.a[0]
    if pconst(p) is not None and pconst(n) is not None and 0 <= pconst(p) < pconst(n) <= 500:
        vals = [fn_at(s, pc(i)) for i in range(pconst(n))]
        vals[pconst(p)] = v
        return lit(vals)
    k = fresh('k')
    return seqfn(n, merge(eqi(pa(k), p), v, fn_at(s, pa(k))), k)


# ------------------------------------------------------------------ substitution
def subst(x, m, memo=None):
    if not x.deps or x.deps.isdisjoint(m):
        return x
    if memo is None:
        memo = {}
    r = memo.get(x)
    if r is not None:
        return r
    k = x.k
    if k == 'P':
        d = {}
        acc = P0
        for mono, c in x.a:
            hit = False
            for at in mono:
                if at.deps and not at.deps.isdisjoint(m):
                    hit = True
                    break
            if not hit:
                d[mono] = d.get(mono, 0) + c
                continue
            t = pc(c)
            for at in mono:
                t = pmul(t, _satom(at, m, memo))
            acc = padd(acc, t)
        r = padd(_pmk(d), acc)
    elif k == 'E':
        d = {}
        acc = E0
        for w, c in x.a:
            if all(at.deps.isdisjoint(m) for at in w):
                d[w] = d.get(w, 0) + c
                continue
            t = ec(c)
            for at in w:
                t = gmul(t, _satom(at, m, memo))
            acc = gadd(acc, t)
        r = gadd(_emk(d), acc)
    elif k == 'B':
        v, hi, lo = x.a
        r = ite(_satom(v, m, memo), subst(hi, m, memo), subst(lo, m, memo))
    elif k == 'atom':
        r = _satom(x, m, memo)
    elif k == 'Agg':
        r = agg(x.a[0], [None if f is None else subst(f, m, memo) for f in x.a[1]])
    elif k == 'Enum':
        r = enum(x.a[0], [(v, subst(c, m, memo), tuple(subst(f, m, memo) for f in fs)) for v, c, fs in x.a[1]])
    elif k == 'Seq':
        if x.a[1] == 'lit':
            r = lit([None if f is None else subst(f, m, memo) for f in x.a[2]])
        else:
            n, _, lv, body = x.a
            n = subst(n, m, memo)
            if _deep(m):
                kk = fresh('o')
                body = subst(body, {bound(lv): pa(kk)})
                nb = subst(body, m, memo)
                c0 = pconst(n)
                if c0 is not None and c0 <= 6:
                    r = lit([subst(nb, {kk: pc(i)}) for i in range(c0)])
                else:
                    r = seqfn(n, nb, kk)
                memo[x] = r
                return r
            nb = subst(body, m, memo)
            if pconst(n) is not None and pconst(n) <= 6:
                r = lit([subst(nb, {bound(lv): pc(i)}) for i in range(pconst(n))])
            else:
                lv2 = nb.h + 1
                if lv2 != lv:
                    nb = subst(nb, {bound(lv): pa(bound(lv2))})
                r = mk('Seq', (n, 'fn', lv2, nb), minus=bound(lv2), binder=True)
    elif k == 'G':
        r = None
        for l, c in x.a[0]:
            l2 = subst(l, m, memo)
            c2 = subst(c, m, memo)
            r = l2 if r is None else merge(c2, l2, r)
    elif k == 'Ptr':
        r = ptr(x.a[0], _stup(x.a[1], m, memo))
    else:
        r = mk(k, _stup(x.a, m, memo))
    memo[x] = r
    return r


def _deep(m):
    for v in m.values():
        if v.h:
            return True
    return False


def _gs(v, m, memo):
    return subst(v, m, memo)


def relb(op, a, b):
    """relation between element values; equality and order of constants are decided"""
    if a.k == 'G' or b.k == 'G':
        r = FALSE
        for x, c in gcases(a):
            for y, d in gcases(b):
                cd = band(c, d)
                if cd is not FALSE:
                    r = bor(r, band(cd, relb(op, x, y)))
        return r
    if CFG.ord is None:
        if op == 'eq':
            if a is b:
                return TRUE
            if CFG.exact and a.k == 'E' and b.k == 'E':
                d = esub(a, b)
                c = econst(d)
                if c is not None:
                    return FALSE if c != 0 else TRUE
                # canonical sign and side
                lead = d.a[-1][1]
                d1 = escale(d, -1) if lead < 0 else d
                return bat(atom('b', 'rel', 'eq', d1, E0))
            if a.id > b.id:
                a, b = b, a
            return bat(atom('b', 'rel', 'eq', a, b))
        return bat(atom('b', 'rel', op, a, b))
    if op == 'eq':
        return band(relb('le', a, b), relb('le', b, a))
    if op == 'lt':
        if CFG.ord == 'exact':
            return bnot(relb('le', b, a))
        return band(relb('le', a, b), bnot(relb('le', b, a)))
    # le
    ca = econst(a) if a.k == 'E' else None
    cb = econst(b) if b.k == 'E' else None
    if ca is not None and cb is not None:
        return TRUE if ca <= cb else FALSE
    if CFG.ord == 'exact' and a.k == 'E' and b.k == 'E':
        d = esub(a, b)
        c = econst(d)
        if c is not None:
            return TRUE if c <= 0 else FALSE
        lead = Fraction(d.a[-1][1])
        d = _emk({w: _fixc(Fraction(k) / abs(lead)) for w, k in d.a})
        if lead < 0:
            return bat(atom('b', 'rel', 'le', E0, eneg(d)))
        return bat(atom('b', 'rel', 'le', d, E0))
    return bat(atom('b', 'rel', 'le', a, b))


def _stup(t, m, memo):
    return tuple(subst(e, m, memo) if isinstance(e, N) else (_stup(e, m, memo) if type(e) is tuple else e) for e in t)


def _satom(at, m, memo):
    """substituted atom as P / E / B"""
    r = m.get(at)
    if r is not None:
        return r
    s, kd = at.a[0], at.a[1]
    if at.deps.isdisjoint(m):
        return pa(at) if s == 'i' else ea(at) if s == 'e' else bat(at)
    key = ('A', at)
    r = memo.get(key)
    if r is not None:
        return r
    if kd == 'idiv':
        r = idiv(subst(at.a[2], m, memo), subst(at.a[3], m, memo))
    elif kd == 'imod':
        r = imod(subst(at.a[2], m, memo), subst(at.a[3], m, memo))
    elif kd == 'imin':
        r = imin(subst(at.a[2], m, memo), subst(at.a[3], m, memo))
    elif kd == 'imax':
        r = imax(subst(at.a[2], m, memo), subst(at.a[3], m, memo))
    elif kd == 'ge0':
        r = ge0(subst(at.a[2], m, memo))
    elif kd == 'eq0':
        r = eqi(subst(at.a[2], m, memo), P0)
    elif kd == 'inv':
        r = gmap(subst(at.a[2], m, memo), einv)
    elif kd == 'pow':
        b = _satom(at.a[2], m, memo)
        e = subst(at.a[3], m, memo)
        r = gmap(b, lambda z: epow(z, e))
    elif kd == 'poly':
        r = subst(at.a[2], m, memo)
    elif kd == 'sum':
        _, _, lv, cond, body = at.a
        k = fresh('s')
        sb = {bound(lv): pa(k)}
        c2 = subst(subst(cond, sb), m)
        b2 = subst(subst(body, sb), m)
        r = mksum(k, c2, b2)
    elif kd == 'forall':
        _, _, lv, body = at.a
        k = fresh('s')
        b2 = subst(subst(body, {bound(lv): pa(k)}), m)
        r = forall(k, b2)
    elif kd == 'app' and s == 'e':
        args = _stup(at.a[3], m, memo)
        r = gapp(at.a[2], args)
    elif kd == 'in' and s == 'e':
        r = ea(atom('e', 'in', at.a[2], _stup(at.a[3], m, memo)))
    elif kd == 'phi':
        n = leafatom(s, 'phi', at.a[2], _stup(at.a[3], m, memo), *at.a[4:])
        r = pa(n) if s == 'i' else ea(n) if s == 'e' else bat(n)
    elif kd == 'rel':
        r = relb(at.a[2], _gs(at.a[3], m, memo), _gs(at.a[4], m, memo))
    else:
        n = mk('atom', _stup(at.a, m, memo))
        r = pa(n) if s == 'i' else ea(n) if s == 'e' else bat(n)
    memo[key] = r
    return r


def gapp(f, args):
    """application distributing over guarded arguments"""
    for i, a in enumerate(args):
        if isinstance(a, N) and a.k == 'G':
            return gmap(a, lambda l: gapp(f, args[:i] + (l,) + args[i + 1:]))
    for a in args:
        if isinstance(a, N) and a.k == 'U':
            return a
    return eapp(f, *args)


def _lift2(f, x, y):
    if x.k == 'U':
        return x
    if y.k == 'U':
        return y
    if x.k != 'E' or y.k != 'E':
        return U('element operation on %s,%s' % (x.k, y.k))
    return f(x, y)


def gadd(x, y):
    return gmap2(x, y, lambda a, b: _lift2(eadd, a, b))


def gsub(x, y):
    return gmap2(x, y, lambda a, b: _lift2(esub, a, b))


def gmul(x, y):
    return gmap2(x, y, lambda a, b: _lift2(emul, a, b))


def gneg(x):
    return gmap(x, lambda a: a if a.k == 'U' else eneg(a))


def ginv(x):
    return gmap(x, lambda a: a if a.k == 'U' else einv(a))


# ------------------------------------------------------------------ sums, quantifiers
def _solve_eq(cond, k):
    for at, val in must(cond):
        if val and at.a[1] == 'eq0' and k in at.deps:
            l = lin_in(at.a[2], k)
            if l and abs(l[0]) == 1:
                c, rest = l
                return pscale(rest, -1) if c == 1 else rest
    return None


def bounds_of(cond, k):
    """(lower bounds, upper bounds) for k as lists of P from the literals implied by cond"""
    los, his = [], []
    for at, val in must(cond):
        if at.a[1] == 'ge0' and k in at.deps:
            p = at.a[2] if val else padd(pneg(at.a[2]), P1, -1)
            l = lin_in(p, k)
            if l is None:
                continue
            c, rest = l
            if c == 1:
                los.append(pneg(rest))
            elif c == -1:
                his.append(rest)
    return los, his


def _single(p):
    return p.a[0][0][0] if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 else None


def _solve_divmod(cond, k):
    """k div m = q and k mod m = r, q, r and m free of k: (q, r, m)"""
    found = {}
    for at, val in must(cond):
        if val and at.a[1] == 'eq0' and k in at.deps:
            for m, c in at.a[2].a:
                x = m[0] if len(m) == 1 else None
                if x is not None and abs(c) == 1 and x.a[1] in ('idiv', 'imod') and x.a[2] is pa(k) and k not in x.a[3].deps:
                    rest = padd(at.a[2], pa(x), -c)
                    if k not in rest.deps:
                        found[x.a[1], x.a[3]] = pscale(rest, -c)
    for (kd, m), q in found.items():
        if kd == 'idiv' and ('imod', m) in found:
            return q, found['imod', m], m
    return None


def _solve_div(cond, k):
    """m*k <= a <= m*k + m-1: k is a div m; returns (a, m)"""
    los, his = [], []
    for at, val in must(cond):
        if at.a[1] == 'ge0' and k in at.deps:
            p = at.a[2] if val else padd(pneg(at.a[2]), P1, -1)
            co, rest, ok = {}, {}, True
            for m, c in p.a:
                if k in m:
                    w = list(m)
                    w.remove(k)
                    if any(k in x.deps for x in w):
                        ok = False
                        break
                    co[tuple(w)] = c
                elif any(k in x.deps for x in m):
                    ok = False
                    break
                else:
                    rest[m] = c
            if not ok or len(co) != 1 or () in co:
                continue
            (w, c), = co.items()
            m = _pmk({w: abs(c)})
            (his if c < 0 else los).append((m, _pmk(rest)))
    for m, a in his:            # a - m*k >= 0
        for m2, r in los:       # r + m*k >= 0
            if m is m2 and padd(r, a) is psub(m, P1):
                return a, m
    return None


def mksum(k, cond, body):
    """sum over all naturals k with cond of body; returns E or G"""
    if cond is FALSE or body is E0:
        return E0
    if body.k == 'U':
        return body
    if body.k == 'G':
        r = E0
        for l, c in body.a[0]:
            r = gadd(r, mksum(k, band(cond, c), l))
        return r
    if body.k != 'E':
        return U('sum of %s' % body.k)
    sol = _solve_eq(cond, k)
    if sol is not None:
        m = {k: sol}
        c2 = band(subst(cond, m), ge0(sol))
        return merge(c2, subst(body, m), E0)
    sol = _solve_div(cond, k)
    if sol is not None:
        a, m = sol
        q = idiv(a, m)
        am = _single(a)
        if am is not None and am not in m.deps and (am in body.deps or am in cond.deps):
            t = fresh('t')
            b2 = subst(body, {am: padd(pmul(m, pa(k)), pa(t))})
            c2 = subst(cond, {am: padd(pmul(m, pa(k)), pa(t))})
            s2 = {k: q, t: imod(a, m)}
            b2, c2 = subst(b2, s2), subst(c2, s2)
        else:
            b2, c2 = subst(body, {k: q}), subst(cond, {k: q})
        return merge(band(c2, ge0(psub(m, P1))), b2, E0)
    # finite constant range
    los, his = bounds_of(cond, k)
    for h in his:
        for l in los + [P0]:
            dd = pconst(psub(h, l))
            if dd is not None and dd < 0:
                return E0
            if dd == 0:
                m = {k: l}
                c2 = band(subst(cond, m), ge0(l))
                return merge(c2, subst(body, m), E0)
    ch = [pconst(h) for h in his if pconst(h) is not None]
    if ch:
        hi = min(ch)
        cl = [pconst(h) for h in los if pconst(h) is not None]
        lo = max([0] + cl)
        if hi - lo < 80:
            r = E0
            for i in range(lo, hi + 1):
                m = {k: pc(i)}
                r = gadd(r, merge(subst(cond, m), subst(body, m), E0))
            return r
    # conditions independent of k
    for at, val in must(cond):
        if k not in at.deps:
            return merge(bat(at) if val else bnot(bat(at)), mksum(k, cofactor(cond, at, val), body), E0)
    # canonical start: a single provably non-negative lower bound becomes 0
    los = [l for l in los if l is not P0]
    if len(los) == 1 and k not in los[0].deps and evid_nn(los[0]):
        k2 = fresh('s')
        m = {k: padd(pa(k2), los[0])}
        return mksum(k2, subst(cond, m), subst(body, m))
    r = E0
    for w, c in body.a:
        i = 0
        n = len(w)
        if not CFG.comm:
            while i < n and k not in w[i].deps:
                i += 1
            j = n
            while j > i and k not in w[j - 1].deps:
                j -= 1
            pre, mid, suf = w[:i], w[i:j], w[j:]
            if mid:
                e0, rest = _splitpow(mid[0], k)
                if e0 is not None:
                    pre, mid = pre + e0, rest + mid[1:]
                elif len(mid) > 1:
                    e0, rest = _splitpow(mid[-1], k)
                    if e0 is not None:
                        suf, mid = e0 + suf, mid[:-1] + rest
        else:
            pre = tuple(a for a in w if k not in a.deps)
            mid = []
            for a in w:
                if k in a.deps:
                    e0, rest = _splitpow(a, k)
                    if e0 is None:
                        mid.append(a)
                    else:
                        pre += e0
                        mid += rest
            mid = tuple(mid)
            suf = ()
        b = mk('E', ((mid, 1),))
        r = eadd(r, emul(emul(mk('E', ((pre, c),)), _sumatom(k, cond, b)), mk('E', ((suf, 1),))))
    return r


def _splitpow(at, k):
    """base^(e0+ek) with ek the part depending on k: (word of e0, word of ek) or (None, None)"""
    if at.a[1] != 'pow' or k in at.a[2].deps:
        return None, None
    b, e = at.a[2], at.a[3]
    e0 = _pmk({m: c for m, c in e.a if all(k not in x.deps for x in m)})
    if not e0.a:
        return None, None
    c = pconst(e0)
    if c is not None and 0 < c <= 12:
        w0 = (b,) * c
    else:
        w0 = (atom('e', 'pow', b, e0),)
    ek = psub(e, e0)
    return w0, (atom('e', 'pow', b, ek),)


def _sumatom(k, cond, body):
    lv = max(cond.h, body.h) + 1
    bd = bound(lv)
    m = {k: pa(bd)}
    at = mk('atom', ('e', 'sum', lv, subst(cond, m), subst(body, m)), minus=bd, binder=True)
    return ea(at)


def forall(k, body):
    """for all naturals k: body"""
    if body is TRUE or k not in body.deps:
        return body
    if body is FALSE:
        return FALSE
    # finite constant range: body true outside
    los, his = bounds_of(bnot(body), k)
    ch = [pconst(h) for h in his if pconst(h) is not None]
    if ch and min(ch) < 80:
        r = TRUE
        for i in range(0, min(ch) + 1):
            r = band(r, subst(body, {k: pc(i)}))
        return r
    # k-independent disjuncts
    for at, val in must(bnot(body)):
        if k not in at.deps:
            l = bat(at) if val else bnot(bat(at))
            return bor(bnot(l), forall(k, cofactor(body, at, val)))
    sol = _solve_eq(bnot(body), k)
    if sol is not None:
        return bor(bnot(ge0(sol)), subst(body, {k: sol}))
    lv = body.h + 1
    bd = bound(lv)
    at = mk('atom', ('b', 'forall', lv, subst(body, {k: pa(bd)})), minus=bd, binder=True)
    return bat(at)


def exists(k, body):
    return bnot(forall(k, bnot(body)))


# ------------------------------------------------------------------ printing
def show(x, d=0):
    if x is None:
        return '_'
    if isinstance(x, (str, int, Fraction, bool)):
        return str(x)
    if type(x) is tuple:
        return '(' + ','.join(show(y, d) for y in x) + ')'
    k, a = x.k, x.a
    if d > 12:
        return '…'
    if k == 'P':
        if not a:
            return '0'
        s = ''
        for m, c in a:
            t = '*'.join(show(y, d + 1) for y in m)
            if m == ():
                t = str(abs(c))
            elif abs(c) != 1:
                t = '%d*%s' % (abs(c), t)
            s += (' - ' if c < 0 else ' + ' if s else '') + t
        return s.strip()
    if k == 'E':
        if not a:
            return '0'
        s = ''
        for m, c in a:
            t = '·'.join(show(y, d + 1) for y in m)
            if m == ():
                t = str(abs(c))
            elif abs(c) != 1:
                t = '%s·%s' % (abs(c), t)
            s += (' - ' if c < 0 else ' + ' if s else '') + t
        return s.strip() if len(a) == 1 else '(%s)' % s.strip()
    if k == 'B':
        if x is TRUE:
            return 'true'
        if x is FALSE:
            return 'false'
        cs = cubes(x, 6)
        if len(cs) > 6:
            return 'B#%d' % x.id
        return ' | '.join('&'.join(('' if v else '!') + show(at, d + 1) for at, v in c) for c in cs)
    if k == 'atom':
        kd = a[1]
        if kd == 'sym':
            return a[2]
        if kd == 'bound':
            return '$%d' % a[2]
        if kd == 'in':
            return a[2] + ''.join('[%s]' % show(i, d + 1) for i in a[3])
        if kd == 'app':
            return '%s(%s)' % (a[2] if isinstance(a[2], str) else show(a[2]), ', '.join(show(i, d + 1) for i in a[3]))
        if kd == 'ge0':
            return '[%s>=0]' % show(a[2], d + 1)
        if kd == 'eq0':
            return '[%s=0]' % show(a[2], d + 1)
        if kd == 'sum':
            return 'Σ{$%d: %s} %s' % (a[2], show(a[3], d + 1), show(a[4], d + 1))
        if kd == 'forall':
            return '∀{$%d} (%s)' % (a[2], show(a[3], d + 1))
        if kd == 'pow':
            return '%s^(%s)' % (show(a[2], d + 1), show(a[3], d + 1))
        if kd == 'poly':
            return show(a[2], d + 1)
        return '%s(%s)' % (kd, ', '.join(show(i, d + 1) for i in a[2:]))
    if k == 'Agg':
        return '%s{%s}' % (str(a[0]).split('::')[-1] if isinstance(a[0], str) else a[0][0], ', '.join(show(f, d + 1) for f in a[1]))
    if k == 'Enum':
        return '%s<%s>' % (a[0].split('::')[-1], '; '.join('%d if %s: %s' % (v, show(c, d + 1), show(f, d + 1)) for v, c, f in a[1]))
    if k == 'Seq':
        if a[1] == 'lit':
            return '[' + ', '.join(show(f, d + 1) for f in a[2]) + ']'
        return '[%s; $%d ↦ %s]' % (show(a[0], d + 1), a[2], show(a[3], d + 1))
    if k == 'G':
        return '{' + '; '.join('%s if %s' % (show(l, d + 1), show(c, d + 1)) for l, c in a[0]) + '}'
    if k == 'Ptr':
        return '&%s%s' % (show(a[0]), ''.join('.' + show(p, d + 1) for p in a[1]))
    if k == 'U':
        return '?%s' % (a[0],)
    return '%s%s' % (k, show(a, d + 1))
