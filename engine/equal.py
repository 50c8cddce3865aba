"""Equality of abstract values under a path condition.

eqv(a, b, pc): True  - equal on every input satisfying pc
               False - normal forms of ground terms differ (nothing unknown in them)
               None  - not decided
"""
from terms import *
import terms
from logic import *

_gr = {}


def ground(v):
    """no binders, placeholders or unknowns: normal forms are canonical"""
    if not isinstance(v, N):
        if type(v) is tuple:
            return all(ground(x) for x in v)
        return True
    r = _gr.get(v)
    if r is not None:
        return r
    _gr[v] = True
    if v.hasu or v.h:
        r = False
    elif v.k == 'atom':
        r = v.a[1] not in ('sum', 'forall', 'first', 'phi', 'unk', 'choice', 'bound') and not (
            v.a[1] == 'sym' and (v.a[2].startswith('havoc') or '~' in v.a[2])) and all(ground(x) for x in v.a[2:])
    else:
        r = all(ground(x) for x in v.a)
    _gr[v] = r
    return r


def _all(rs):
    out = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            out = None
    return out


def eqv(a, b, p=TRUE):
    if a is b or p is FALSE:
        return True
    if a is None or b is None:
        return None
    if a.k == 'U' or b.k == 'U':
        return None
    if a.k == 'B' and b.k == 'B':
        return eqb(a, b, p)
    a2, b2 = simp(a, p), simp(b, p)
    if a2 is b2:
        return True
    a, b = a2, b2
    if a.k == 'G' or b.k == 'G':
        rs = []
        for l, c in gcases(a):
            for m, d in gcases(b):
                q = band(p, c, d)
                if l is m or not feasible(q):
                    continue
                r = eqv(l, m, q)
                if r is False and not ground(q):
                    r = None
                rs.append(r)
                if r is False:
                    return False
        return _all(rs)
    if a.k != b.k:
        # a newtype around the value, or another representation
        if a.k == 'Agg' and len(a.a[1]) == 1:
            return eqv(a.a[1][0], b, p)
        if b.k == 'Agg' and len(b.a[1]) == 1:
            return eqv(a, b.a[1][0], p)
        return None
    k = a.k
    if k == 'P':
        return eqp(a, b, p)
    if k == 'E':
        return eqe(a, b, p)
    if k == 'Agg':
        if len(a.a[1]) != len(b.a[1]):
            return None
        if a.a[0] != b.a[0] and 'partial' not in (a.a[0], b.a[0]):
            return False if ground(a) and ground(b) else None
        return _all([eqv(x, y, p) for x, y in zip(a.a[1], b.a[1])])
    if k == 'Enum':
        da = {v: (c, f) for v, c, f in a.a[1]}
        db = {v: (c, f) for v, c, f in b.a[1]}
        rs = []
        for v in da.keys() | db.keys():
            ca, fa = da.get(v, (FALSE, None))
            cb, fb = db.get(v, (FALSE, None))
            rs.append(eqb(ca, cb, p))
            q = band(p, ca, cb)
            if fa and fb and feasible(q):
                rs += [eqv(x, y, q) for x, y in zip(fa, fb)]
        return _all(rs)
    if k == 'Seq':
        r = eqp(seqlen(a), seqlen(b), p)
        if r is not True:
            return r
        if a.a[1] == 'lit' and b.a[1] == 'lit':
            return _all([eqv(x, y, p) for x, y in zip(a.a[2], b.a[2])])
        if a.a[1] == 'lit' or b.a[1] == 'lit':
            n = len((a if a.a[1] == 'lit' else b).a[2])
            return _all([eqv(seqat(a, pc(i)), seqat(b, pc(i)), p) for i in range(n)])
        kk = fresh('q')
        q = band(p, lt(pa(kk), seqlen(a)))
        if not feasible(q):
            return True
        x, y = seqat(a, pa(kk)), seqat(b, pa(kk))
        if eqv(x, y, q) is True:
            return True
        # the position of the last write, apart
        for e in pins((x, y), q, kk):
            q1 = band(q, bnot(eqi(pa(kk), e)))
            q2 = subst(q, {kk: e})
            if eqv(subst(x, {kk: e}), subst(y, {kk: e}), q2) is True and eqv(x, y, q1) is True:
                return True
        return None
    if k == 'Ptr':
        return None
    return None


def pins(vs, q, kk):
    """positions e that q or the cases of the values vs compare kk with"""
    out = []
    ats = set(support(q))
    vs = list(vs)
    for v in vs:
        for l, c in gcases(v):
            ats |= support(c)
            if l.k == 'Seq' and len(vs) < 12:
                # positions the elements of a row depend on
                vs += list(l.a[2]) if l.a[1] == 'lit' else [seqat(l, pa(fresh('q')))]
    for at in sorted(ats, key=lambda x: x.id):
        if at.a[1] not in ('ge0', 'eq0') or kk not in at.deps:
            continue
        e = at.a[2]
        co = [c for m, c in e.a if m == (kk,)]
        if len(co) != 1 or co[0] not in (1, -1):
            continue
        r = psub(e, pscale(pa(kk), co[0]))
        if kk in r.deps:
            continue
        r = pneg(r) if co[0] == 1 else r
        for x in (r, padd(r, P1), psub(r, P1)):
            if x not in out and feasible(band(q, eqi(pa(kk), x))):
                out.append(x)
    return out[:8]


def eqb(a, b, p, d_=0):
    x = bxor(a, b)
    if x is FALSE:
        return True
    q = band(p, x)
    if not feasible(q):
        return True
    # simplify inside quantified atoms, then try again
    a2, b2 = simpb(a, p), simpb(b, p)
    if a2 is b2:
        return True
    a3, b3 = canon_b(a2, p), canon_b(b2, p)
    if a3 is b3 or not feasible(band(p, bxor(a3, b3))):
        return True
    if d_ > 0 and by_cases(a3, b3, p):
        return True
    if d_ > 2:
        return None
    # quantified conditions whose bodies agree position by position
    fa = [x for x in support(a3) if x.a[1] == 'forall']
    fb = [x for x in support(b3) if x.a[1] == 'forall']
    if fa and fb and len(fa) * len(fb) <= 16:
        hit = False
        for x in fa:
            for y in fb:
                if x is y:
                    continue
                k = fresh('c')
                bx, by = (subst(z.a[3], {bound(z.a[2]): pa(k)}) for z in (x, y))
                if eqb(bx, by, p, d_ + 1) is True:
                    b3 = ite(bat(x), cofactor(b3, y, True), cofactor(b3, y, False))
                    hit = True
                    break
        if hit and (a3 is b3 or not feasible(band(p, bxor(a3, b3)))):
            return True
    if d_ == 0 and refute(band(p, bxor(a2, b2))):
        return True
    if ground(a) and ground(b) and ground(p):
        return False
    return None


def by_cases(a, b, p, depth=6):
    """equal once the comparisons of integers they are made of are settled one by one"""
    a, b = simpb(a, p), simpb(b, p)
    if a is b or not feasible(p):
        return True
    if depth == 0:
        return False
    at = [x for x in support(a) | support(b) if x.a[1] == 'ge0']
    if not at:
        return _resolved(a, p) is _resolved(b, p)
    x = bat(min(at, key=lambda y: y.id))
    return all(by_cases(a, b, band(p, c), depth - 1) for c in (x, bnot(x)))


def _resolved(b, p):
    """b with what its relations compare simplified under p"""
    for x in support(b):
        if x.a[1] == 'rel':
            y = terms.relb(x.a[2], *(simp(e, p) for e in x.a[3:5]))
            b = ite(y, cofactor(b, x, True), cofactor(b, x, False))
    return b


def indices(v, out, seen):
    """positions at which sequence inputs are read"""
    if type(v) is tuple:
        for x in v:
            indices(x, out, seen)
        return
    if not isinstance(v, N) or v in seen:
        return
    seen.add(v)
    if v.k == 'atom' and v.a[1] in ('in', 'app') and type(v.a[3]) is tuple:
        for x in v.a[3]:
            if isinstance(x, N) and x.k == 'P':
                out.add((v.a[2], x))
    for x in v.a:
        indices(x, out, seen)


def refute(q):
    """q cannot hold: every failing 'for all' fails at some position, every holding one holds at the positions the others speak of"""
    fs = sorted({x for x in support(q) if x.a[1] == 'forall'}, key=lambda x: x.id)
    if not fs or len(fs) > 6:
        return False
    sk, reads = {}, {}
    for f in fs:
        k = fresh('w')
        body = subst(f.a[3], {bound(f.a[2]): pa(k)})
        sk[f] = (k, body)
        o = set()
        indices(body, o, set())
        reads[f] = o
        q = band(q, bor(bat(f), bnot(body)))
    for f in fs:
        k, body = sk[f]
        cand = []
        for g in fs:
            if g is f:
                continue
            for n1, i1 in reads[f]:
                if dict(i1.a).get((k,)) != 1:
                    continue
                off = psub(i1, pa(k))
                if k in off.deps:
                    continue
                for n2, i2 in reads[g]:
                    if n1 == n2 and sk[g][0] in i2.deps:
                        c = psub(i2, off)
                        if c not in cand:
                            cand.append(c)
        for c in cand[:6]:
            q = band(q, bor(bnot(bat(f)), bnot(ge0(c)), subst(body, {k: c})))
            if q is FALSE:
                return True
    return not feasible(q)


def canon_b(b, p):
    """identifies quantified atoms that are equivalent under p"""
    at = [x for x in support(b) if x.a[1] in ('forall',)]
    if not at:
        return b
    r = b
    for x in at:
        _, _, lv, body = x.a
        k = _ck(lv)
        bd = subst(body, {bound(lv): pa(k)})
        # restrict the body to the part not decided by p
        bd2 = simpb(bd, p)
        y = forall(k, bd2)
        v = ite(y, cofactor(r, x, True), cofactor(r, x, False))
        r = v
    return r


_cks = {}


def _ck(lv):
    k = _cks.get(lv)
    if k is None:
        k = _cks[lv] = fresh('c')
    return k


def eqp(a, b, p):
    d = psub(a, b)
    c = pconst(d)
    if c is not None:
        return c == 0
    e = eqi(a, b)
    if entails(p, e):
        return True
    if ground(a) and ground(b) and ground(p) and entails(p, bnot(e)):
        return False
    return None


def eqe(a, b, p):
    d = esub(a, b)
    if d is E0:
        return True
    if not CFG.exact:
        # syntactic terms only
        if a is b:
            return True
        r = eq_words(a, b, p)
        if r is True:
            return True
        return False if r is False and ground(a) and ground(b) else None
    d = drop_sums(d, p)
    if d is E0:
        return True
    if FINAL[0]:
        d = pinned(d, p)
    if d.k == 'E':
        d = red_sums(d, p)
    if d.k == 'G':
        return _all([eqe(l, E0, band(p, c)) for l, c in d.a[0] if feasible(band(p, c))])
    if d is E0:
        return True
    if nsums(d) > 1 and any(deep(w) for w, c in d.a):
        d = nest_match(d, p)
        if d is E0:
            return True
    if CFG.comm:
        n = numer(d)
        if n is E0:
            return True
        if n is not None:
            d = n
    # indices equal under p but not syntactically
    d2 = match_words(d, p)
    if d2 is E0:
        return True
    if ground(d) and ground(p) and not has_idx(d2):
        return False
    return None


def has_idx(d):
    """element inputs at symbolic positions (two of them may coincide)"""
    for w, c in d.a:
        for at in w:
            if _hasidx(at):
                return True
    return False


def _hasidx(at):
    if at.a[1] in ('in', 'app'):
        for x in at.a[3]:
            if isinstance(x, N) and x.k == 'P' and pconst(x) is None:
                return True
            if isinstance(x, N) and x.k == 'E' and has_idx(x):
                return True
        return False
    return any(isinstance(x, N) and x.k == 'atom' and _hasidx(x) or isinstance(x, N) and x.k == 'E' and has_idx(x) for x in at.a[2:])


def atoms_eq(x, y, p):
    if x is y:
        return True
    if x.a[:2] != y.a[:2]:
        return False
    kd = x.a[1]
    if kd in ('in', 'app', 'phi'):
        if x.a[2] != y.a[2] or len(x.a[3]) != len(y.a[3]):
            return False
        for i, j in zip(x.a[3], y.a[3]):
            if isinstance(i, N) and isinstance(j, N):
                if eqv(i, j, p) is not True:
                    return False
            elif i != j:
                return False
        return True
    if kd in ('draw', 'ans'):
        return x.a[2:-1] == y.a[2:-1] and len(x.a[-1]) == len(y.a[-1]) and all(eqv(i, j, p) is True for i, j in zip(x.a[-1], y.a[-1]))
    if kd == 'pow':
        return atoms_eq(x.a[2], y.a[2], p) and eqv(x.a[3], y.a[3], p) is True
    if kd in ('inv', 'poly'):
        return eqv(x.a[2], y.a[2], p) is True
    if kd == 'sum':
        k = fresh('s')
        c1, b1 = open_sum(x, k)
        c2, b2 = open_sum(y, k)
        return eqb(c1, c2, p) is True and eqv(b1, b2, band(p, c1)) is True
    return False


def match_words(d, p):
    """cancels words that are equal under p"""
    items = list(d.a)
    used = [False] * len(items)
    left = {}
    for i, (w, c) in enumerate(items):
        if used[i]:
            continue
        tot = c
        for j in range(i + 1, len(items)):
            if used[j] or len(items[j][0]) != len(w):
                continue
            w2 = items[j][0]
            if CFG.comm:
                rest = list(w2)
                ok = True
                for x in w:
                    for y in rest:
                        if atoms_eq(x, y, p):
                            rest.remove(y)
                            break
                    else:
                        ok = False
                        break
            else:
                ok = all(atoms_eq(x, y, p) for x, y in zip(w, w2))
            if ok:
                used[j] = True
                tot += items[j][1]
        left[w] = left.get(w, 0) + tot
    return terms._emk(left)


def eq_words(a, b, p):
    if len(a.a) != len(b.a):
        return False
    if len(a.a) == 1 and a.a[0][1] == b.a[0][1] and len(a.a[0][0]) == len(b.a[0][0]):
        rs = []
        for x, y in zip(a.a[0][0], b.a[0][0]):
            rs.append(atoms_eq(x, y, p))
        if all(rs):
            return True
        return None if has_idx(a) or has_idx(b) else False
    return False


def open_sum(at, k):
    _, _, lv, cond, body = at.a
    m = {bound(lv): pa(k)}
    return subst(cond, m), subst(body, m)


def deep(w):
    return sum(1 for at in w if at.a[1] == 'sum') > 1 or any(at.a[1] == 'sum' and at.a[4].k == 'E' and nsums(at.a[4]) for at in w)


def unnest(w, c, depth=0):
    """the word c*w as sums of products: [(coefficient, variables, condition, word without sums)] or None"""
    for i, at in enumerate(w):
        if at.a[1] == 'sum':
            break
    else:
        return [(c, (), TRUE, w)]
    if depth > 4:
        return None
    k = fresh('s')
    cond, body = open_sum(at, k)
    out = []
    for l, g in gcases(body):
        if l.k != 'E':
            return None
        for w2, c2 in l.a:
            r = unnest(w[:i] + w2 + w[i + 1:], c * c2, depth + 1)
            if r is None or len(out) > 40:
                return None
            out += [(c3, (k,) + ks, band(cond, g, q), w3) for c3, ks, q, w3 in r]
    return out


def nest_match(d, p):
    """cancels nested sums that differ in the order of summation"""
    import itertools
    ts = []
    for w, c in d.a:
        r = unnest(w, c)
        if r is None or len(ts) + len(r) > 60:
            return d
        ts += r
    used = [False] * len(ts)
    for i, (c1, k1, q1, w1) in enumerate(ts):
        if used[i] or not k1:
            continue
        for j in range(len(ts)):
            c2, k2, q2, w2 = ts[j]
            if used[j] or j == i or c1 + c2 != 0 or len(k1) != len(k2) or len(w1) != len(w2) or len(k1) > 3:
                continue
            for pm in itertools.permutations(k1):
                m = dict(zip(k2, map(pa, pm)))
                v = subst(mk('E', ((w2, 1),)), m)
                if v.k != 'E' or len(v.a) != 1 or not (v.a[0][0] == w1 or CFG.comm and sorted(v.a[0][0], key=id) == sorted(w1, key=id)
                                                       or len(v.a[0][0]) == len(w1) and all(atoms_eq(x, y, band(p, q1)) for x, y in zip(w1, v.a[0][0]))):
                    continue
                if v.a[0][1] == 1 and eqb(q1, subst(q2, m), p) is True:
                    used[i] = used[j] = True
                    break
            if used[i]:
                break
    if not all(used[i] or not k for i, (c, k, q, w) in enumerate(ts)):
        return d
    return _words([(w, c) for i, (c, k, q, w) in enumerate(ts) if not used[i]])


def _words(items):
    d = {}
    for w, c in items:
        d[w] = d.get(w, 0) + c
    return terms._emk(d)


def nsums(d):
    return sum(1 for w, c in d.a for at in w if at.a[1] == 'sum')


def drop_sums(d, p):
    """sums over an empty range"""
    gone = {}
    for w, c in d.a:
        for at in w:
            if at.a[1] == 'sum' and at not in gone:
                k = fresh('s')
                gone[at] = not feasible(band(p, open_sum(at, k)[0]))
    if not any(gone.values()):
        return d
    return terms._emk({w: c for w, c in d.a if not any(gone.get(at) for at in w)})


FINAL = [False]      # set while the result is compared with what is specified


def pinned(d, p):
    """sums over the numbers with given quotient and remainder"""
    for w, c in d.a:
        for i, at in enumerate(w):
            if at.a[1] == 'sum':
                k = fresh('s')
                cond, body = open_sum(at, k)
                sol = terms._solve_divmod(cond, k)
                if sol is not None:
                    q, r, m = sol
                    s2 = {k: padd(pmul(m, q), r)}
                    c2 = band(subst(cond, s2), ge0(q), ge0(r), lt(r, m))
                    v = merge(c2, subst(body, s2), E0)
                    rest = terms._emk({u: e for u, e in d.a if u is not w})
                    return simp(gadd(rest, gmul(gmul(terms._emk({w[:i]: c}), v), terms._emk({w[i + 1:]: 1}))), p)
    return d


_modc = {}


def has_mod(v):
    if type(v) is tuple:
        return any(has_mod(x) for x in v)
    if not isinstance(v, N):
        return False
    r = _modc.get(v)
    if r is None:
        _modc[v] = False
        r = _modc[v] = v.k == 'atom' and v.a[1] == 'imod' or any(has_mod(x) for x in v.a)
    return r


def settle(v, p):
    """a value after a loop, sums with one given quotient and remainder evaluated"""
    if v is None or v.k not in ('E', 'G', 'Agg', 'Seq') or not has_mod(v):
        return v
    if v.k == 'E':
        for _ in range(4):
            w = pinned(v, p)
            if w is v or w.k != 'E':
                return w
            v = w
        return v
    if v.k == 'G':
        d = {}
        for l, c in v.a[0]:
            for l2, c2 in gcases(settle(l, band(p, c))):
                d[l2] = bor(d.get(l2, FALSE), band(c, c2))
        return mkg(d) if len(d) > 1 else next(iter(d))
    if v.k == 'Agg':
        return terms.agg(v.a[0], [settle(x, p) for x in v.a[1]])
    if v.a[1] == 'lit':
        return lit([settle(x, p) for x in v.a[2]])
    n, _, lv, body = v.a
    k = fresh('k')
    return seqfn(n, settle(subst(body, {bound(lv): pa(k)}), band(p, lt(pa(k), n))), k)


def red_sums(d, p, depth=0):
    """cancels and simplifies sums in a difference"""
    if d.k != 'E' or nsums(d) == 0 or depth > 12:
        return d
    d = simp(d, p)
    if d.k != 'E' or d is E0:
        return d
    items = [(w, c) for w, c in d.a]
    sums = [(i, j) for i, (w, c) in enumerate(items) for j, at in enumerate(w) if at.a[1] == 'sum']
    # pairs with opposite coefficients and the same context
    for x in range(len(sums)):
        for y in range(x + 1, len(sums)):
            i, a = sums[x]
            j, b = sums[y]
            if i == j:
                continue
            w1, c1 = items[i]
            w2, c2 = items[j]
            for variant, ww, cc, u in pair_variants((w1, c1, a), (w2, c2, b), p):
                r = try_pair(variant, ww, cc, u, p)
                if r is not None:
                    rest = terms._emk({w: c for k, (w, c) in enumerate(items) if k not in (i, j)})
                    nd = gadd(rest, r)
                    if nd.k == 'G':
                        return nd
                    return red_sums(nd, p, depth + 1)
    # a single sum that can be merged with plain words is resolved by the caller
    return d


def pair_variants(x, y, p):
    w1, c1, a = x
    w2, c2, b = y
    for v in sum_variants(w1, c1, a, p):
        yield v, w2, c2, b
    for s in (1, 2):
        yield shifted(w1, c1, a, s), w2, c2, b
        yield shifted(w2, c2, b, s), w1, c1, a
    for (w, c, i), (u, e, j) in ((x, y), (y, x)):
        for s in offsets(w[i]):
            if pconst(s) is None and entails(p, ge0(s)):
                yield shifted(w, c, i, s), u, e, j
    it = sum_variants(w2, c2, b, p)
    next(it)
    for v in it:
        yield v, w1, c1, a


def shifted(w, c, a, s):
    """the word c*w with the variable of its a-th letter, a sum, renumbered from s"""
    k, k2 = fresh('s'), fresh('s')
    cond, body = open_sum(w[a], k)
    if isinstance(s, int):
        s = pc(s)
    m = {k: psub(pa(k2), s)}
    return (c, w[:a], k2, band(subst(cond, m), ge0(psub(pa(k2), s))), subst(body, m), w[a + 1:])


def offsets(at):
    """by how much the positions read in a sum are ahead of its variable"""
    k = fresh('s')
    _, body = open_sum(at, k)
    out = []

    def go(v, d=0):
        if type(v) is tuple:
            for x in v:
                go(x, d)
        elif isinstance(v, N) and v.k == 'P':
            r = psub(v, pa(k))
            if k in v.deps and k not in r.deps and r not in out and len(out) < 3:
                out.append(r)
        elif isinstance(v, N) and d < 6:
            for x in v.a:
                go(x, d + 1)
    go(body)
    return out


def sum_variants(w, c, a, p):
    """rewritings of the word c*w whose a-th letter is a sum: itself, reversed order"""
    at = w[a]
    k = fresh('s')
    cond, body = open_sum(at, k)
    yield (c, w[:a], k, cond, body, w[a + 1:])
    los, his = terms.bounds_of(cond, k)
    los = [l for l in los if k not in l.deps] + [P0]
    seen = set()
    for l in los:
        for h in his:
            if k in h.deps:
                continue
            s = padd(l, h)
            if s in seen:
                continue
            seen.add(s)
            k2 = fresh('s')
            m = {k: psub(s, pa(k2))}
            # k = s - k2 >= 0 must hold on the whole range
            c2 = band(subst(cond, m), ge0(psub(s, pa(k2))))
            if not entails(band(p, cond), ge0(psub(s, pa(k)))):
                continue
            c2 = simpb(c2, p)
            yield (c, w[:a], k2, c2, simp(subst(body, m), band(p, c2)), w[a + 1:])


def _norm_ctx(pre, k, body, suf):
    """moves k-free factors of the body out and returns (pre, body, suf)"""
    if body.k != 'E' or len(body.a) != 1:
        return None
    e = mksum(k, bapp('any', pa(k)), body)
    if e.k != 'E' or len(e.a) != 1:
        return None
    w, c = e.a[0]
    idx = [i for i, x in enumerate(w) if x.a[1] == 'sum' and bapp('any', pa(bound(x.a[2]))) is x.a[3]]
    if len(idx) != 1:
        return None
    i = idx[0]
    _, b = open_sum(w[i], k)
    full_pre = emul(mk('E', ((pre, 1),)), mk('E', ((w[:i], 1),)))
    full_suf = emul(mk('E', ((w[i + 1:], 1),)), mk('E', ((suf, 1),)))
    if CFG.comm:
        return c, emul(full_pre, full_suf), b, E1
    return c, full_pre, b, full_suf


def try_pair(var, w2, c2, b, p):
    """var + c2*w2 where both contain one sum; returns an E/G with fewer sums or None"""
    c1, pre1, k, cond1, body1, suf1 = var
    cond2, body2 = open_sum(w2[b], k)
    n1 = _norm_ctx(pre1, k, body1, suf1)
    n2 = _norm_ctx(w2[:b], k, body2, w2[b + 1:])
    if n1 is None or n2 is None:
        return None
    f1, P1_, B1, S1 = n1
    f2, P2_, B2, S2 = n2
    if f1 * c1 + f2 * c2 != 0:
        return None
    if eqv(P1_, P2_, p) is not True or eqv(S1, S2, p) is not True:
        return None
    q = band(p, bor(cond1, cond2))
    both = band(p, cond1, cond2)
    if B1 is not B2 and eqv(B1, B2, q) is not True:
        if eqv(B1, B2, both) is not True:
            return None
    if eqb(cond1, cond2, p) is True:
        return E0
    c12 = simpb(band(cond1, bnot(cond2)), p)
    c21 = simpb(band(cond2, bnot(cond1)), p)
    s1 = E0 if not feasible(band(p, c12)) else mksum(k, c12, B1)
    s2 = E0 if not feasible(band(p, c21)) else mksum(k, c21, B2)
    r = gsub(s1, s2)
    r = gmul(gmul(escale(P1_, f1 * c1), r), S1)
    r = simp(r, p)
    n = sum(nsums(l) for l, c in gcases(r) if l.k == 'E')
    return r if n <= 1 else None


# ---------------------------------------------------------------- fields
def _is_negpow(at):
    if at.a[1] == 'pow':
        c = pconst(at.a[3])
        return c is not None and c < 0
    return False


def numer(d, depth=0):
    """numerator of d as a rational function (zero iff d is zero), with sqrt(x)^2 = x, abs(x)^2 = x^2"""
    if depth > 40:
        return None
    for w, c in d.a:
        for at in w:
            if at.a[1] == 'inv':
                x = at.a[2]
                m = max(ww.count(at) for ww, _ in d.a)
                return numer(_clear(d, at, x, m), depth + 1)
            if _is_negpow(at):
                b = at.a[2]
                m = max(-pconst(t.a[3]) for ww, _ in d.a for t in ww if t.a[1] == 'pow' and t.a[2] is b and pconst(t.a[3]) is not None and pconst(t.a[3]) < 0)
                f = b.a[2] if b.a[1] == 'poly' else ea(b)
                r = E0
                for ww, cc in d.a:
                    t = ec(cc)
                    e = m
                    for y in ww:
                        if y.a[1] == 'pow' and y.a[2] is b and pconst(y.a[3]) is not None and pconst(y.a[3]) < 0:
                            e += pconst(y.a[3])
                        else:
                            t = emul(t, ea(y))
                    for _ in range(e):
                        t = emul(t, f)
                    r = eadd(r, t)
                return numer(r, depth + 1)
    for w, c in d.a:
        for at in w:
            if at.a[1] == 'app' and at.a[2] in ('sqrt', 'abs') and w.count(at) >= 2:
                r = E0
                x = at.a[3][0]
                if at.a[2] == 'abs':
                    x = emul(x, x)
                for ww, cc in d.a:
                    n = ww.count(at)
                    if n < 2:
                        r = eadd(r, mk('E', ((ww, cc),)))
                        continue
                    ww2 = list(ww)
                    t = ec(cc)
                    while ww2.count(at) >= 2:
                        ww2.remove(at)
                        ww2.remove(at)
                        t = emul(t, x)
                    r = eadd(r, emul(t, mk('E', ((tuple(ww2), 1),))))
                return numer(r, depth + 1)
    return d


def _clear(d, at, x, m):
    r = E0
    for w, c in d.a:
        n = w.count(at)
        t = ec(c)
        for y in w:
            if y is not at:
                t = emul(t, ea(y))
        for _ in range(m - n):
            t = emul(t, x)
        r = eadd(r, t)
    return r
