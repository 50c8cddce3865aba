"""Entailment of integer facts (Fourier-Motzkin over monomials, with the defining
facts of div/mod/min/max) and simplification of values under a path condition."""
from math import gcd
from terms import *
import terms

STAT = {'cube': 0, 'fm': 0}


def _lin(p):
    return dict(p.a)


def _addto(d, m, c):
    v = d.get(m, 0) + c
    if v:
        d[m] = v
    else:
        d.pop(m, None)


def _tight(d):
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        return {m: (c // g) for m, c in d.items() if c // g != 0}
    return d


_fmc = {}


def _fm(ineqs, eqs):
    """False if the system {d >= 0} + {e == 0} has no solution"""
    key = (frozenset(tuple(sorted(((tuple(x.id for x in m), c) for m, c in d.items()))) for d in ineqs),
           frozenset(tuple(sorted(((tuple(x.id for x in m), c) for m, c in d.items()))) for d in eqs))
    r = _fmc.get(key)
    if r is None:
        STAT['fm'] += 1
        r = _fm_(ineqs, eqs)
        _fmc[key] = r
    return r


def _fm_(ineqs, eqs):
    ineqs = [dict(d) for d in ineqs]
    eqs = [dict(d) for d in eqs]
    # substitute equalities
    while eqs:
        e = eqs.pop()
        vs = [m for m in e if m != ()]
        if not vs:
            if e.get((), 0) != 0:
                return False
            continue
        g = 0
        for m in vs:
            g = gcd(g, abs(e[m]))
        if e.get((), 0) % g:
            return False
        if g > 1:
            e = {m: c // g for m, c in e.items()}
        u = [m for m in vs if abs(e[m]) == 1]
        if not u:
            ineqs.append(dict(e))
            ineqs.append({m: -c for m, c in e.items()})
            continue
        v = max(u, key=len)
        c = e[v]
        # v = -(e - c v)/c
        rest = {m: (-k if c == 1 else k) for m, k in e.items() if m != v}
        for L in (ineqs, eqs):
            for d in L:
                k = d.pop(v, 0)
                if k:
                    for m, q in rest.items():
                        _addto(d, m, k * q)
    work = []
    seen = set()

    def push(L, d):
        d = _tight(d)
        if all(m == () for m in d):
            return d.get((), 0) >= 0
        key = frozenset(d.items())
        if key not in seen:
            seen.add(key)
            L.append(d)
        return True

    for d in ineqs:
        if not push(work, d):
            return False
    while True:
        cnt = {}
        for d in work:
            for m, c in d.items():
                if m != ():
                    p = cnt.setdefault(m, [0, 0])
                    p[c < 0] += 1
        if not cnt:
            return True
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1])
        pos = [d for d in work if d.get(v, 0) > 0]
        neg = [d for d in work if d.get(v, 0) < 0]
        nxt = [d for d in work if v not in d]
        if len(pos) * len(neg) + len(nxt) > 1500:
            return True
        for p in pos:
            for q in neg:
                a, b = p[v], -q[v]
                g = gcd(a, b)
                a, b = a // g, b // g
                r = {}
                for m, c in p.items():
                    _addto(r, m, c * b)
                for m, c in q.items():
                    _addto(r, m, c * a)
                if not push(nxt, r):
                    return False
        # keep only the strongest constant per coefficient vector
        best = {}
        for d in nxt:
            kk = frozenset((m, c) for m, c in d.items() if m != ())
            c = d.get((), 0)
            if kk not in best or best[kk] > c:
                best[kk] = c
        work = []
        for kk, c in best.items():
            d = dict(kk)
            if c:
                d[()] = c
            work.append(d)


_cubec = {}


def cube_feasible(lits):
    key = frozenset(lits)
    r = _cubec.get(key)
    if r is None:
        STAT['cube'] += 1
        r = _cube(key)
        _cubec[key] = r
    return r


def _cube(lits):
    ineqs, eqs, neqs = [], [], []
    for at, val in sorted(lits, key=lambda l: l[0].id):
        kd = at.a[1]
        if kd == 'ge0':
            p = at.a[2] if val else padd(pneg(at.a[2]), P1, -1)
            ineqs.append(p)
        elif kd == 'eq0':
            (eqs if val else neqs).append(at.a[2])
        elif kd == 'rel':
            pass
    # inconsistent element relations
    if not _rel_ok(lits):
        return False
    if not ineqs and not eqs and not neqs:
        return True
    splits = []
    done = set()
    todo = []

    def atoms_of(p):
        for m, c in p.a:
            for x in m:
                if x not in done:
                    done.add(x)
                    todo.append(x)

    for p in ineqs + eqs + neqs:
        atoms_of(p)
    while todo:
        x = todo.pop()
        kd = x.a[1]
        px = pa(x)
        if is_nn(x):
            ineqs.append(px)
        if kd in ('idiv', 'imod'):
            a, b = x.a[2], x.a[3]
            q, m = pa(atom('i', 'idiv', a, b)), pa(atom('i', 'imod', a, b))
            eqs.append(psub(a, padd(pmul(b, q), m)))
            ineqs.append(psub(padd(b, m, -1), P1))
            ineqs.append(m)
            ineqs.append(q)
            ineqs.append(psub(a, m))
            atoms_of(a)
            atoms_of(b)
            atoms_of(q)
            atoms_of(m)
        elif kd == 'imin':
            a, b = x.a[2], x.a[3]
            ineqs += [psub(a, px), psub(b, px)]
            splits.append((psub(px, a), psub(px, b)))
            atoms_of(a)
            atoms_of(b)
        elif kd == 'imax':
            a, b = x.a[2], x.a[3]
            ineqs += [psub(px, a), psub(px, b)]
            splits.append((psub(a, px), psub(b, px)))
            atoms_of(a)
            atoms_of(b)
        elif kd == 'iapp':
            for f in IAXIOMS:
                for p in f(x):
                    ineqs.append(p)
                    atoms_of(p)
    # a < b*M gives a div b < M, and a >= b*M gives a div b >= M
    for x in [y for y in done if y.a[1] == 'idiv' and len(y.a[3].a) == 1 and y.a[3].a[0][1] == 1]:
        a, b = x.a[2], x.a[3]
        if len(b.a[0][0]) == 0:
            continue
        for p in list(ineqs):
            for sg in (1, -1):
                # p = sg*(b*M - a) - (1 if sg > 0 else 0)
                M = _quot(padd(a, padd(p, P1) if sg > 0 else p, sg), b)
                if M is not None:
                    t = psub(padd(M, pa(x), -1), P1) if sg > 0 else psub(pa(x), M)
                    ineqs.append(t)
                    atoms_of(t)
        # a = b*M + s with 0 <= s < b gives a div b = M, a mod b = s
        for p in list(eqs):
            for sg in (1, -1):
                M, r = terms._divsplit(padd(a, p, sg), b)
                if M is None or M is P0:
                    continue
                if all(not _fm([_lin(q) for q in ineqs] + [_lin(padd(pneg(t), P1, -1))], [_lin(q) for q in eqs])
                       for t in (r, psub(psub(b, r), P1))):
                    eqs.append(psub(pa(x), M))
                    atoms_of(eqs[-1])
    # products
    monos = set()
    for p in ineqs + eqs + neqs + [s for t in splits for s in t]:
        for m, c in p.a:
            if len(m) >= 2:
                monos.add(m)
    if monos:
        fac = set()
        pairs = set()
        for m in monos:
            for x in m:
                if is_nn(x):
                    fac.add(x)
            if len(m) == 2:
                pairs.add(m)
        extra = []
        for p in ineqs:
            if any(len(m) > 1 for m, c in p.a):
                continue
            for y in fac:
                if any(m and (tuple(sorted(m + (y,), key=lambda z: z.id)) in monos or _divby(m, y)) for m, c in p.a):
                    extra.append(pmul(p, pa(y)))
        extra_eq = []
        for p in eqs:
            if any(len(m) > 1 for m, c in p.a):
                continue
            for y in fac:
                if any(m and tuple(sorted(m + (y,), key=lambda z: z.id)) in monos for m, c in p.a):
                    extra_eq.append(pmul(p, pa(y)))
        if len(extra) < 60:
            ineqs += extra
            eqs += extra_eq
        for m in monos:
            if all(is_nn(x) for x in m):
                ineqs.append(terms._pmk({m: 1}))
        more = set()
        for p in extra:
            for m, c in p.a:
                if len(m) >= 2 and m not in monos and all(is_nn(x) for x in m):
                    more.add(m)
        for m in more:
            ineqs.append(terms._pmk({m: 1}))

    def solve(ine, ns, sp):
        if not _fm([_lin(p) for p in ine], [_lin(p) for p in eqs]):
            return False
        if ns:
            p = ns[0]
            return (solve(ine + [padd(p, P1, -1)], ns[1:], sp) or
                    solve(ine + [padd(pneg(p), P1, -1)], ns[1:], sp))
        if sp:
            a, b = sp[0]
            return solve(ine + [a], ns, sp[1:]) or solve(ine + [b], ns, sp[1:])
        return True

    # a disequality one side of which is impossible is an inequality
    if len(neqs) > 3:
        elin = [_lin(p) for p in eqs]
        todo = sorted(neqs, key=lambda p: p.id)
        while True:
            left = []
            for p in todo:
                base = [_lin(q) for q in ineqs]
                up, dn = padd(p, P1, -1), padd(pneg(p), P1, -1)
                a, b = _fm(base + [_lin(up)], elin), _fm(base + [_lin(dn)], elin)
                if not a and not b:
                    return False
                if a and b:
                    left.append(p)
                else:
                    ineqs.append(up if a else dn)
            if len(left) == len(todo):
                break
            todo = left
        neqs = todo
    return solve(ineqs, neqs[:4], splits[:5])


def _quot(p, b):
    """p / b for a monomial b dividing every term of p"""
    bm = b.a[0][0]
    r = {}
    for m, c in p.a:
        m = list(m)
        for x in bm:
            if x not in m:
                return None
            m.remove(x)
        r[tuple(m)] = c
    return terms._pmk(r) if r else P0


def _divby(m, y):
    return any(x.a[1] == 'idiv' and len(x.a[3].a) == 1 and y in x.a[3].a[0][0] for x in m)


IAXIOMS = []


def _rel_ok(lits):
    """consistency of element order literals rel le(a, b)"""
    pos, neg, nodes = [], [], set()
    for at, val in lits:
        if at.a[1] == 'rel' and at.a[2] == 'le':
            a, b = at.a[3], at.a[4]
            nodes |= {a, b}
            (pos if val else neg).append((a, b))
    if not nodes or CFG.ord is None:
        return True
    cs = []
    for n in nodes:
        if n.k == 'E' and econst(n) is not None:
            cs.append((econst(n), n))
    num = {n for c, n in cs}
    for a, b in pos:
        num |= {a, b}
    if CFG.ord == 'exact':
        num |= nodes
    strict = []
    for a, b in neg:
        if a in num and b in num:
            if a is b:
                return False
            strict.append((b, a))
    cs.sort(key=lambda t: t[0])
    for (c, n), (d, m) in zip(cs, cs[1:]):
        strict.append((n, m))
    g = {}
    for a, b in pos + strict:
        g.setdefault(a, set()).add(b)
    for a, b in strict:
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x is a:
                return False
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
    return True


_feas = {}


def feasible(b):
    if b is FALSE:
        return False
    if b is TRUE:
        return True
    r = _feas.get(b)
    if r is None:
        cs = cubes(b, 200)
        if len(cs) > 200:
            r = cube_feasible(list(must(b))) and project_feasible(b)
        else:
            r = any(cube_feasible(c) for c in cs)
        _feas[b] = r
    return r


def project_feasible(b):
    """feasibility of the arithmetic part of a condition with many cases"""
    for at in sorted(support(b), key=lambda x: -x.id):
        if at.a[1] not in ('ge0', 'eq0'):
            b = bor(cofactor(b, at, True), cofactor(b, at, False))
            if len(support(b)) == 0:
                break
    if b is FALSE or b is TRUE:
        return b is TRUE
    cs = cubes(b, 200)
    return len(cs) > 200 or any(cube_feasible(c) for c in cs)


_ent = {}


def entails(p, b):
    if b is TRUE or p is FALSE:
        return True
    if b is FALSE:
        return not feasible(p)
    key = (p, b)
    r = _ent.get(key)
    if r is None:
        q = band(p, bnot(b))
        r = (q is FALSE)
        if not r:
            # cheap attempt with the implied literals only
            if len(b.a) == 3:
                ms = [l for l in must(p) if l[0].a[1] in ('ge0', 'eq0')]
                nb = cubes(bnot(b), 8)
                if len(nb) <= 8 and all(not cube_feasible(ms + c) for c in nb):
                    r = True
            if not r:
                r = not feasible(q)
        _ent[key] = r
    return r


def simpb(b, p):
    """b simplified under p"""
    if b is TRUE or b is FALSE or p is TRUE:
        return b
    b = restrict(b, p)
    if b is TRUE or b is FALSE:
        return b
    for at in sorted(support(b), key=lambda x: x.id):
        if at.a[1] in ('ge0', 'eq0') or (at.a[1] == 'rel' and CFG.ord is not None):
            v = bat(at)
            if entails(p, v):
                b = cofactor(b, at, True)
            elif entails(p, bnot(v)):
                b = cofactor(b, at, False)
    return b


_simpc = {}


def simp(v, p):
    if v is None or p is TRUE or v.k in ('U', 'Fn'):
        return v
    if not v.deps and v.k in ('P', 'E'):
        return v
    memo = _simpc.get(p)
    if memo is None:
        memo = _simpc[p] = {}
    return _simp(v, p, memo)


def _simp(v, p, memo):
    if v is None:
        return None
    r = memo.get(v)
    if r is not None:
        return r
    k = v.k
    if k == 'B':
        r = simpb(v, p)
    elif k == 'P':
        r = v
        for m, c in v.a:
            for at in m:
                if at.a[1] in ('idiv', 'imod', 'imin', 'imax'):
                    q = _simpatom(at, p, memo)
                    if q is not pa(at):
                        r = padd(r, pmul(terms._pmk({m: c}), P0))  # no-op to keep structure simple
                        r = _replace(r, at, q)
    elif k == 'E':
        if all(_leafy(at) for w, c in v.a for at in w):
            r = v
        else:
            acc = E0
            for w, c in v.a:
                t = ec(c)
                for at in w:
                    t = gmul(t, _simpe(at, p, memo))
                acc = gadd(acc, t)
            r = acc
    elif k == 'Agg':
        r = agg(v.a[0], [_simp(f, p, memo) for f in v.a[1]])
    elif k == 'Enum':
        cs = []
        for vi, c, f in v.a[1]:
            c2 = simpb(c, p)
            if c2 is FALSE or not feasible(band(p, c2)):
                continue
            q = band(p, c2)
            cs.append((vi, c2, tuple(simp(x, q) for x in f)))
        if len(cs) == 1:
            cs = [(cs[0][0], TRUE, cs[0][2])]
        r = enum(v.a[0], cs)
    elif k == 'G':
        d = {}
        for l, c in v.a[0]:
            c2 = simpb(c, p)
            q = band(p, c2)
            if c2 is FALSE or not feasible(q):
                continue
            l2 = simp(l, q)
            for l3, c3 in gcases(l2):
                d[l3] = bor(d.get(l3, FALSE), band(c2, c3))
        if len(d) == 0:
            r = v
        else:
            r = mkg(d) if len(d) > 1 else next(iter(d))
    elif k == 'Seq':
        if v.a[1] == 'lit':
            r = lit([_simp(f, p, memo) for f in v.a[2]])
        else:
            n, _, lv, body = v.a
            n2 = _simp(n, p, memo)
            kk = fresh('k')
            b2 = simp(subst(body, {bound(lv): pa(kk)}), band(p, lt(pa(kk), n2)))
            r = seqfn(n2, b2, kk)
    elif k == 'Ptr':
        r = ptr(v.a[0], _simpt(v.a[1], p, memo))
    else:
        r = v
    memo[v] = r
    return r


def _simpt(t, p, memo):
    return tuple(_simp(e, p, memo) if isinstance(e, N) else (_simpt(e, p, memo) if type(e) is tuple else e) for e in t)


def _replace(p, at, q):
    acc = P0
    for m, c in p.a:
        t = pc(c)
        for x in m:
            t = pmul(t, q if x is at else pa(x))
        acc = padd(acc, t)
    return acc


def _simpatom(at, p, memo):
    kd = at.a[1]
    a, b = at.a[2], at.a[3]
    a = _simp(a, p, memo)
    b = _simp(b, p, memo)
    if kd == 'imin':
        if entails(p, le(a, b)):
            return a
        if entails(p, le(b, a)):
            return b
        return imin(a, b)
    if kd == 'imax':
        if entails(p, le(a, b)):
            return b
        if entails(p, le(b, a)):
            return a
        return imax(a, b)
    # a = q*b + r ?
    q, r = terms._divsplit(a, b)
    if q is not None:
        if entails(p, band(ge0(r), lt(r, b))):
            return q if kd == 'idiv' else r
    if entails(p, band(ge0(a), lt(a, b))):
        return P0 if kd == 'idiv' else a
    if b.k == 'P' and len(b.a) == 1 and b.a[0][0] and b.a[0][1] == 1 and p is not TRUE:
        # b*M <= a < b*(M + 1) by a condition
        for at2, val in sorted(must(p), key=lambda l: (l[0].id, l[1])):
            if at2.a[1] != 'ge0':
                continue
            for L in (at2.a[2], padd(pneg(at2.a[2]), P1, -1)):
                if (L is at2.a[2]) != val:
                    continue
                M = _quot(padd(a, L, -1), b)
                if M is None or M is P0:
                    continue
                r = padd(a, pmul(b, M), -1)
                if entails(p, band(ge0(r), lt(r, b))):
                    return M if kd == 'idiv' else r
    return idiv(a, b) if kd == 'idiv' else imod(a, b)


def _leafy(at):
    kd = at.a[1]
    if kd == 'in':
        return all(_plainP(i) for i in at.a[3] if isinstance(i, N))
    if kd == 'app':
        return all(_plain(i) for i in at.a[3])
    return False


def _plainP(p):
    return p.k == 'P' and all(x.a[1] in ('sym', 'bound', 'iapp') for m, c in p.a for x in m)


def _plain(v):
    if not isinstance(v, N):
        return True
    if v.k == 'E':
        return all(_leafy(at) for w, c in v.a for at in w)
    if v.k == 'P':
        return _plainP(v)
    return False


def _simpe(at, p, memo):
    key = ('a', at)
    r = memo.get(key)
    if r is not None:
        return r
    kd = at.a[1]
    if kd == 'in':
        r = ea(atom('e', 'in', at.a[2], _simpt(at.a[3], p, memo)))
    elif kd == 'app':
        r = gapp(at.a[2], _simpt(at.a[3], p, memo))
    elif kd in ('draw', 'ans'):
        r = ea(atom('e', *at.a[1:-1], _simpt(at.a[-1], p, memo)))
    elif kd == 'inv':
        r = ginv(_simp(at.a[2], p, memo))
    elif kd == 'pow':
        r = gmap(_simpe(at.a[2], p, memo), lambda z: epow(z, _simp(at.a[3], p, memo)))
    elif kd == 'poly':
        r = _simp(at.a[2], p, memo)
    elif kd == 'sum':
        _, _, lv, cond, body = at.a
        k = fresh('s')
        m = {bound(lv): pa(k)}
        c2 = simpb(subst(cond, m), p)
        b2 = simp(subst(body, m), band(p, c2))
        r = mksum(k, c2, b2)
    else:
        r = ea(at)
    memo[key] = r
    return r
