"""The optimiser's properties (O01-O07), decided on the summary of one client function.

The summary of `w_de` lists, for all sizes, the events of the optimiser (draws,
comparisons, panics, loops with the transition of their unsolved state) with
their path conditions.  Each property is a rule on that summary:

  proved     the rule's obligations (equalities and entailments between terms
             of the summary) hold for all sizes,
  violated   an obligation fails and an execution of the *summary* (its events
             in order, under an assignment of inputs, draws and answers) breaks
             the property's statement,
  undecided  otherwise (not reported).
"""
import math, random, time
from fractions import Fraction
from terms import *
import terms
from logic import *
from equal import eqv, eqp, eqb, eqe
import interp as IP
import run as RUN
import evalt
from evalt import Ev, Unknown, Undefined
import rules
import build

ROOT = 'w_de'
OPTPATH = 'optimize::'


# ------------------------------------------------------------------ the summary
class Summary:
    pass


def summary(W, limit, inst=None):
    """the summary for all sizes, or (constant propagation) for the given ones"""
    def prem(I):
        return ge0(psub(I.intparam('N'), P1))
    r = RUN.run_root(W, ROOT, 'ring', inst, bool(inst), limit=limit, premise=prem, cut=True)
    s = Summary()
    s.r, s.W, s.I = r, W, r.I
    s.n = r.I.intparam('population_size')
    s.N = r.I.intparam('N')
    s.iters = r.I.intparam('num_iters')
    s.events = r.events
    s.sites = {}       # draw and answer atoms: (kind, site) -> [(index terms, event)]
    index(s, r.events)
    return s


def dig(v):
    """the draw / answer atom behind a drawn value"""
    if v.k == 'P':
        ats = [m[0] for m, c in v.a if len(m) == 1 and m[0].a[1] in ('draw', 'iapp')]
        return ats[-1] if ats else None
    if v.k == 'E' and len(v.a) == 1 and len(v.a[0][0]) == 1:
        return v.a[0][0][0]
    if v.k == 'B' and len(v.a) == 3:
        return v.a[0]
    return None


def index(s, evs):
    for e in evs:
        if e.kind == 'loop':
            index(s, e.data[3])
        elif e.kind in ('draw', 'call'):
            v = e.data[-1]
            at = dig(v)
            if at is None:
                continue
            site, ix = ident(at)
            s.sites.setdefault((at.a[1], site), []).append((ix, e))


def ident(at):
    if at.a[1] == 'draw':
        return at.a[2], at.a[3]
    if at.a[1] == 'ans':
        return at.a[3], at.a[4]
    return at.a[2], at.a[3]


def var_index(p):
    """the loop variable a loop index consists of, and the offset"""
    if p.k != 'P':
        return None
    c = pconst(p)
    if c is not None:
        return None, c
    d, off = None, 0
    for m, k in p.a:
        if m == ():
            off = k
        elif len(m) == 1 and k == 1 and d is None and m[0].a[1] in ('sym',):
            d = m[0]
        else:
            return None
    return d, off


# ------------------------------------------------------------------ execution of a summary
class Stop(Exception):
    pass


class Trace(Ev):
    """runs the events of the summary under an assignment"""

    def __init__(self, s, rnd, ints, cp, w, lo, hi, cmp, cap=4000):
        Ev.__init__(self, 'real', rnd, 0, ints)
        self.s, self.cp, self.cmp = s, cp, cmp
        self.items = []
        self.names[('in', 'crossover_probability', ())] = cp
        self.names[('in', 'differential_weight', ())] = w
        for i in range(len(lo)):
            self.names[('in', 'bounds.0', (i,))] = lo[i]
            self.names[('in', 'bounds.1', (i,))] = hi[i]
        self.firsts = {}
        self.events_left = cap
        self.deadline = time.time() + 20

    def sample(self, key):
        r = self.names.get(key)
        if r is None:
            raise Unknown('no value for %r' % (key,))
        return r

    # ---- draws and answers
    def find(self, kind, site, ix):
        for jx, e in self.s.sites.get((kind, site), ()):
            env = {}
            ok = len(jx) == len(ix)
            for p, v in zip(jx, ix):
                if not ok:
                    break
                vo = var_index(p)
                if vo is None or (vo[0] is None and vo[1] != v):
                    ok = False
                elif vo[0] is not None:
                    d = v - vo[1]
                    if d < 0 or env.get(vo[0], d) != d:
                        ok = False
                    env[vo[0]] = d
            if ok:
                return e, env
        raise Unknown('no event for %s%r' % (site, ix))

    def drawn(self, at, env):
        site, idx = ident(at)
        ix = tuple(self.P(p, env) if isinstance(p, N) else p for p in idx)
        key = (at.a[1], site, ix)
        if key in self.names:
            return self.names[key]
        e, env2 = self.find(at.a[1], site, ix)
        if e.kind == 'call' and not self.B(e.cond, env2):
            return False if at.a[0] == 'b' else 0 if at.a[0] == 'i' else 0.0     # never happens: not read
        if e.kind == 'call':
            args = tuple(self.val(a, env2) for a in e.data[1])
            v = bool(self.cmp(self, args))
        elif e.data[0] == 'range':
            lo, hi, incl = e.data[2], e.data[3], e.data[4]
            a, b = self.val(lo, env2), self.val(hi, env2)
            if isinstance(a, int):
                if b - a + incl < 1:
                    raise Unknown('empty range')
                v = self.rnd.randrange(0, b - a + incl)       # the atom is relative to lo
            else:
                v = a + (b - a) * self.rnd.random()
        elif e.data[0] == 'gen' or e.data[0] == 'random':
            if at.a[0] == 'b':
                v = self.rnd.random() < 0.5
            elif at.a[0] == 'e' and e.data[2] in ('f32', 'f64'):
                v = self.cp if self.rnd.random() < 0.15 and 0 <= self.cp < 1 else self.rnd.random()
            else:
                raise Unknown('draw of ' + str(e.data[2]))
        else:
            raise Unknown('draw ' + str(e.data[0]))
        self.names[key] = v
        return v

    def iatom(self, at, env):
        if at in env:
            return env[at]
        a = at.a
        if a[1] == 'draw':
            return self.drawn(at, env)
        if a[1] == 'iapp':
            k = ('iapp', a[2], self.args(a[3], env))
            if k in self.names:
                return self.names[k]
            raise Unknown(str(a[2]))
        if a[1] == 'sym' and a[2] not in self.ints:
            raise Unknown('symbol ' + a[2])
        if a[1] == 'first':
            name, allS, pre = a[2], a[3], a[4]
            key = (at, tuple(sorted((x.id, v) for x, v in env.items() if x in at.deps)))
            if key in self.firsts:
                return self.firsts[key]
            # allS is the quantified continuation condition
            if len(allS.a) == 3 and allS.a[1] is TRUE and allS.a[2] is FALSE and allS.a[0].a[1] == 'forall':
                fa, neg = allS.a[0], False
            else:
                raise Unknown('first')
            bd = bound(fa.a[2])
            e2 = dict(env)
            for i in range(3000):
                e2[bd] = i
                if not self.B(fa.a[3], e2):
                    self.firsts[key] = i
                    return i
                if time.time() > self.deadline:
                    break
            raise Unknown('first: not reached')
        return Ev.iatom(self, at, env)

    def batom(self, at, env):
        a = at.a
        if a[1] in ('draw', 'ans'):
            return self.drawn(at, env)
        if a[1] == 'rel':
            x, y = self.val(a[3], env), self.val(a[4], env)
            return x == y if a[2] == 'eq' else x < y if a[2] == 'lt' else x <= y
        if a[1] == 'forall':
            # the continuation of a loop that draws: decided by its first failure
            lv, body = a[2], a[3]
            bd = bound(lv)
            e2 = dict(env)
            for i in range(60):
                e2[bd] = i
                if not self.B(body, e2):
                    return False
                if time.time() > self.deadline:
                    raise Unknown('time')
            if 'draw' in kinds(body):
                return True      # as good as never leaving
            for i in range(60, 400):
                e2[bd] = i
                if not self.B(body, e2):
                    return False
            return True
        if a[1] in ('in', 'app'):
            raise Unknown('condition')
        return Ev.batom(self, at, env)

    def eatom(self, at, env):
        if at.a[1] in ('draw', 'ans'):
            return self.drawn(at, env)
        if at.a[1] == 'in':
            return self.sample(('in', at.a[2], self.args(at.a[3], env)))
        return Ev.eatom(self, at, env)

    def E(self, e, env):
        r = 0.0
        for w, c in e.a:
            t = float(c)
            for at in w:
                t = t * self.eatom(at, env)
            r = r + t
        return r

    # ---- state
    def assign(self, node, value, env):
        k = node.k
        if k == 'Seq':
            if self.P(seqlen(node), env) != len(value) - 1:
                raise Unknown('length of a state component')
            for i, v in enumerate(value[1:]):
                self.assign(seqat(node, pc(i)), v, env)
            return
        if k in ('E', 'P') and len(node.a) == 1 and len(node.a[0][0]) == 1 and node.a[0][1] == 1:
            at = node.a[0][0][0]
            if at.a[1] in ('in', 'iapp'):
                self.names[(at.a[1], at.a[2], self.args(at.a[3], env))] = value
                return
        if k == 'B' and len(node.a) == 3 and node.a[1] is TRUE:
            at = node.a[0]
            self.names[(at.a[1], at.a[2], self.args(at.a[3], env))] = value
            return
        if k == 'Agg':
            for x, v in zip(node.a[1], value):
                self.assign(x, v, env)
            return
        raise Unknown('state ' + k)

    def run(self):
        self.exec(self.s.events, {})
        r = self.s.r
        if r.st is None or not self.B(r.st.pc, {}):
            raise Unknown('the end of the function is not reached')
        v = self.val(r.val, {})
        self.items.append(('ret', v))

    def exec(self, evs, env):
        for e in evs:
            if e.kind != 'loop':
                if not self.B(e.cond, env):
                    continue
                self.events_left -= 1
                if self.events_left < 0 or time.time() > self.deadline:
                    raise Unknown('too long')
                if e.kind == 'panic':
                    self.items.append(('panic', e.data[0], e.data[1]))
                    raise Stop()
                if e.kind == 'call':
                    self.items.append(('call', e.data[0], tuple(self.val(a, env) for a in e.data[1]), self.val(e.data[2], env)))
                elif e.kind == 'draw':
                    d = e.data
                    src = show(d[1])
                    if d[0] == 'range':
                        self.items.append(('range', src, self.val(d[2], env), self.val(d[3], env), d[4], self.val(d[5], env)))
                    else:
                        self.items.append((d[0], src, d[2], self.val(d[-1], env)))
                continue
            t, T, S, body, trans, name = e.data
            if not self.B(e.cond, env):
                continue
            env2 = dict(env)
            env2[t] = 0
            for loc, hv, ini, nx, pp in trans:
                self.assign(hv, self.val(ini, env), env2)
            n = self.P(T, env) if T is not None else None
            i = 0
            while True:
                env2[t] = i
                if n is not None and i >= n:
                    break
                if not self.B(S, env2):
                    break
                self.exec(body, env2)
                new = [(hv, self.val(nx, env2)) for loc, hv, ini, nx, pp in trans if nx is not None]
                env3 = dict(env2)
                env3[t] = i + 1
                for hv, v in new:
                    self.assign(hv, v, env3)
                i += 1
                if i > 3000 or time.time() > self.deadline:
                    raise Unknown('too long')


_kinds = {}


def kinds(v):
    """kinds of the atoms in a term"""
    if not isinstance(v, N):
        out = set()
        if type(v) is tuple:
            for x in v:
                out |= kinds(x)
        return out
    r = _kinds.get(v)
    if r is None:
        r = set()
        if v.k == 'atom':
            r.add(v.a[1])
        for x in v.a:
            r |= kinds(x)
        _kinds[v] = r
    return r


# ------------------------------------------------------------------ what the properties say about an execution
def near(x, y):
    return x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def same(a, b):
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))


def vec(v):
    return tuple(v[1:]) if isinstance(v, tuple) and v and v[0] == 'seq' else None


class Stats:
    """which choices were seen, over many executions"""

    def __init__(self):
        self.donors = {}      # (n, i) -> [set, set, set], count
        self.comp = {}        # N -> set of components taken with probability 0, count


def foreign(src):
    """surely not the generator of the caller"""
    return src != 'rng' and (not src.startswith('?') or any(d.search(src.split()[-1]) for d, _ in rules.DENY))


def judge_invalid(items):
    out = {}
    for k, x in enumerate(items):
        if x[0] == 'panic':
            break
        if x[0] == 'ret':
            out['O01'] = 'invalid parameters are accepted'
        else:
            out['O01'] = 'a random number is drawn or candidates are compared before invalid parameters are rejected'
        break
    return out


def judge_trace(tr, n, N, iters, cp, w, lo, hi, cmpkind, stats):
    """{property: what is wrong}"""
    items, out = tr.items, {}

    def bad(p, why):
        out.setdefault(p, why)
    for x in items:
        if x[0] not in ('call', 'panic', 'ret') and foreign(x[1]):
            bad('O05', 'a random number is drawn from %s, not from the generator of the caller' % x[1])
    if items[-1][0] == 'panic' and items[-1][1].startswith('endless'):
        bad('O02' if sum(1 for x in items if x[0] == 'call') < iters else 'O06', 'never returns (%s at %s)' % items[-1][1:3])
        return out
    if items[-1][0] == 'panic':
        bad('O01', 'panics (%s at %s) although the parameters are valid' % items[-1][1:3])
        return out
    # ---- initial population
    pos = 0
    cols = [[] for _ in range(N)]
    while pos < len(items) and items[pos][0] == 'range' and isinstance(items[pos][2], float):
        _, src, a, b, incl, v = items[pos]
        c = [k for k in range(N) if a == lo[k] and b == hi[k]]
        if not c:
            bad('O07', 'an initial component is drawn from %s..%s, which is no bounds pair' % (a, b))
            return out
        if incl:
            bad('O07', 'an initial component is drawn from a closed interval')
            return out
        cols[c[0]].append(v)
        pos += 1
    if pos == 0:
        return out
    if any(len(c) != n for c in cols):
        bad('O07', 'draws %s initial values for the components of %d members' % ([len(c) for c in cols], n))
        return out
    P = [tuple(cols[k][m] for k in range(N)) for m in range(n)]
    first = list(P)
    # ---- the search
    rest = items[pos:-1]
    ret = vec(items[-1][1])
    calls = [k for k, x in enumerate(rest) if x[0] == 'call']
    if len(calls) < iters:
        bad('O02', '%d comparisons for %d iterations' % (len(calls), iters))
        return out
    prev = -1
    for t in range(iters):
        k = calls[t]
        draws = [x for x in rest[prev + 1:k]]
        prev = k
        if len(rest[k][2]) != 2:
            return out
        x, y = (vec(v) for v in rest[k][2])
        ans = rest[k][3]
        i = t % n
        if x is None or y is None:
            return out
        if not same(y, P[i]):
            if same(x, P[i]):
                bad('O02', 'iteration %d compares the member with the candidate, in the wrong order' % t)
            elif t == 0 and not any(same(y, p) for p in P):
                bad('O07', 'the first target is not one of the drawn members')
            else:
                m = [q for q in range(n) if same(y, P[q])]
                bad('O02', 'iteration %d compares with %s, not with member %d' % (
                    t, 'member %d' % m[0] if m else ('the member %d of an earlier population' % first.index(y) if y in first else 'a vector that is no member'), i))
            return out
        if any(same(x, p) for p in P) and not draws:
            bad('O02', 'only %d of %d iterations are made' % (t, iters))
            return out
        candidate(x, P, i, n, N, w, cp, draws, bad, stats, t)
        if 'O04' in out:
            return out
        if ans:
            P[i] = x
    # ---- knockout
    lost = set()
    for k in calls[iters:]:
        x, y = (vec(v) for v in rest[k][2])
        a = [q for q in range(n) if same(x, P[q])]
        b = [q for q in range(n) if same(y, P[q])]
        if not a or not b:
            if b and k - prev > 1 and k == calls[iters]:
                bad('O02', 'more than %d iterations are made' % iters)
            else:
                bad('O02' if not a and x in first or not b and y in first else 'O06', 'the final selection compares a vector that is no member of the final population')
            return out
        if len(a) == 1 and len(b) == 1 and a != b:
            lost.add(b[0] if rest[k][3] else a[0])
    if ret is None:
        return out
    m = [q for q in range(n) if same(ret, P[q])]
    if not m:
        bad('O02' if ret in first or iters and any(ret == vec(rest[k][2][0]) for k in calls[:iters]) else 'O06', 'the result is no member of the final population')
        if 'O02' in out:
            bad('O06', out['O02'])
        return out
    if cmpkind == 'order':
        best = [q for q in range(n) if not any(tr.cmp(tr, (('seq',) + P[p], ('seq',) + P[q])) for p in range(n))]
        if not set(best) & set(m):
            bad('O06', 'member %d is returned, but member %d is judged better' % (m[0], best[0]))
    else:
        for q in range(n):
            if q not in m and q not in lost:
                bad('O06', 'member %d of %d is discarded without having lost a comparison' % (q, n))
    return out


def candidate(x, P, i, n, N, w, cp, draws, bad, stats, t):
    """judges one candidate against the members P, target i"""
    M = [c for c in range(N) if not near(x[c], P[i][c])]     # surely from the donors
    good, loose = [], None        # admissible triples with the components that may come from either side
    comps = [False for _ in M]
    for a in range(n):
        for b in range(n):
            for c in range(n):
                f = [near(x[q], P[a][q] + (P[b][q] - P[c][q]) * w) for q in range(N)]
                if not any(f):
                    continue
                for k, q in enumerate(M):
                    comps[k] = comps[k] or f[q]
                if all(f[q] for q in M):
                    amb = [q for q in range(N) if f[q] and q not in M]
                    if not M and not amb:
                        continue
                    if len({a, b, c, i}) == 4:
                        good.append(((a, b, c), amb))
                    else:
                        loose = loose or (a, b, c)
    if not good:
        if not M:
            bad('O04', 'no component of the candidate comes from the donors')
        elif loose is not None:
            bad('O03', 'iteration %d (member %d) combines the members %s' % (t, i, loose))
            if i in loose:
                bad('O04', 'iteration %d combines the members %s, and member %d is the target' % (t, loose, i))
        elif all(comps):
            bad('O04', 'the components of one candidate are formed from different members')
        else:
            bad('O04', 'a component of the candidate is neither the member\'s own nor the combination of three members')
        return
    r = [d for d in draws if d[0] == 'range' and isinstance(d[2], int) and (d[2], d[3] + d[4]) == (0, N)]
    u = [d[3] for d in draws if d[0] in ('gen', 'random') and d[2] in ('f32', 'f64')]
    if len(good) == 1 and M:
        st = stats.donors.setdefault((n, i), [set(), set(), set(), 0])
        for k in range(3):
            st[k].add(good[0][0][k])
        st[3] += 1
    if cp == 1.0 and not any(len(M) + len(amb) == N for _, amb in good):
        bad('O04', 'with crossover probability 1 a component is kept')
        return
    if cp == 0.0:
        if len(M) > 1:
            bad('O04', 'with crossover probability 0 more than one component is taken from the donors')
            return
        if M:
            st = stats.comp.setdefault(N, [set(), 0])
            st[0].add(M[0])
            st[1] += 1
    if len(r) == 1 and n != N:
        r = r[0][5]
        if len(u) == N:
            options = [list(u), list(reversed(u))]
        elif len(u) == N - 1:
            options = []
            for v in (list(u), list(reversed(u))):
                v.insert(r, math.inf)
                options.append(v)
        elif 0 < len(u) < N - 1 and 0 < cp < 1 and all(d[0] in ('gen', 'random') or d[0] == 'range' and isinstance(d[2], int) for d in draws):
            bad('O04', '%d random numbers decide on %d components' % (len(u), N - 1))
            return
        else:
            return
        want = [[c for c in range(N) if c == r or v[c] < cp] for v in options]
        if not any(set(M) <= set(e) <= set(M) | set(amb) for e in want for _, amb in good):
            bad('O04', 'components %s are taken from the donors for the drawn component %d, the draws %s and the probability %s' % (M, r, u, cp))


def reach(stats, out):
    for (n, i), (a, b, c, cnt) in stats.donors.items():
        if cnt >= 60 * n:
            for role, s in (('first', a), ('second', b), ('third', c)):
                miss = set(range(n)) - {i} - s
                if miss:
                    out.setdefault('O03', 'member %d of %d is never the %s donor for member %d (in %d candidates)' % (min(miss), n, role, i, cnt))
    for N, (s, cnt) in stats.comp.items():
        if cnt >= 60 * N and len(s) < N:
            out.setdefault('O04', 'component %s of %d is never the randomly chosen one (in %d candidates)' % (sorted(set(range(N)) - s), N, cnt))


# ------------------------------------------------------------------ executions
def fitness(seed, levels):
    def f(v):
        h = hash((seed,) + tuple(round(x, 7) for x in v))
        return random.Random(h).randrange(levels)
    return f


def execute(s, pl, rnd, stats, note, unknown):
    """one execution of the summary"""
    kind, n, N_, iters, cp, w = pl
    lo = [1.0 + 10 * k + rnd.random() for k in range(N_)]
    hi = [x + 1 + rnd.random() * 3 for x in lo]
    if kind == 'any':
        p = rnd.choice([0.5, 0.5, 0.9, 0.1])
        cmp = lambda tr, a: tr.rnd.random() < p
    else:
        f = fitness(rnd.random(), rnd.choice([3, 1000]))
        cmp = lambda tr, a: f(vec(a[0])) < f(vec(a[1]))
    tr = Trace(s, random.Random(rnd.random()), {'population_size': n, 'N': N_, 'num_iters': iters}, cp, w, lo, hi, cmp)
    ex = {'population_size': n, 'N': N_, 'num_iters': iters, 'crossover_probability': cp, 'differential_weight': w}
    try:
        try:
            tr.run()
        except Stop:
            pass
        if kind == 'limits':
            if tr.items[-1][0] == 'panic':
                note({'O01': 'valid parameters are rejected (%s)' % (tr.items[-1],)}, ex)
        else:
            res = judge_trace(tr, n, N_, iters, cp, w, lo, hi, kind, stats)
            note(res, dict(ex, events=str(tr.items[-6:])[:600]))
        return 1
    except (Unknown, Undefined, IP.Giveup, RecursionError, OverflowError) as e:
        unknown[str(e)[:200]] = unknown.get(str(e)[:200], 0) + 1
    return 0


def instances(W, tier, want, budget=90.0):
    """like executions, on the summaries for a few fixed sizes and numbers of
    iterations (constant propagation, for loops that have no summary)"""
    found, unknown, count = {}, {}, 0
    t0 = time.time()
    rnd = random.Random(4)
    stats = Stats()

    def note(res, ex):
        for p, why in res.items():
            if p not in found:
                found[p] = (why, ex)
    plan = [(4, 1, 0), (5, 1, 0), (6, 2, 0), (7, 2, 0), (4, 2, 1), (5, 2, 1), (9, 1, 0), (11, 1, 0), (5, 2, 2), (4, 3, 5), (5, 1, 6), (4, 2, 9)]
    if tier != 'quick':
        plan += [(n, 1, 0) for n in (8, 10, 12, 13, 15, 16, 17, 31, 33)] + [(6, 3, 8), (7, 2, 7)]
    for n, N_, iters in plan:
        if time.time() - t0 > budget or want in found:
            break
        try:
            s = summary(W, 25, {'population_size': n, 'N': N_, 'num_iters': iters})
        except (IP.Giveup, IP.Budget, RecursionError) as ex:
            unknown['%s: %s' % (type(ex).__name__, ex)] = 1
            continue
        for k in range(8 if tier == 'quick' else 20):
            pl = ('order' if k % 2 == 0 else 'any', n, N_, iters, [0.3, 0.0, 1.0, 0.7][k % 4], [0.3, 0.77, 1.61, 0.45][k // 2 % 4])
            count += execute(s, pl, rnd, stats, note, unknown)
    return found, unknown, count


def executions(s, tier, want=None, budget=60.0, consts=()):
    """{property: [description, example]} of violations, and statistics"""
    found, unknown, count = {}, {}, 0
    t0 = time.time()
    rnd = random.Random(3)
    stats = Stats()

    def note(res, ex):
        for p, why in res.items():
            if p not in found:
                found[p] = (why, ex)
    nan = float('nan')
    # invalid parameters
    inv = [(n, 0.5, 0.5) for n in (0, 1, 2, 3)] + [(5, c, 0.5) for c in (-0.1, 1.1, nan, -math.inf, math.inf, -1e-30, 1.0000001)] + \
          [(5, 0.5, w) for w in (-0.1, 2.1, nan, -math.inf, math.inf, -1e-30, 2.0000005)] + [(3, nan, nan), (3, 2.0, 0.5), (4, -1.0, 3.0)]
    for n, cp, w in inv:
        for iters in (0, 2):
            N_ = 2
            tr = Trace(s, rnd, {'population_size': n, 'N': N_, 'num_iters': iters}, cp, w, [1.0, 2.0], [5.0, 7.0], lambda tr, a: False)
            try:
                try:
                    tr.run()
                except Stop:
                    pass
                note(judge_invalid(tr.items), {'population_size': n, 'crossover_probability': cp, 'differential_weight': w, 'num_iters': iters, 'N': N_, 'events': str(tr.items[:4])})
                count += 1
            except (Unknown, Undefined) as e:
                if tr.items and tr.items[0][0] != 'panic':
                    note({'O01': 'a random number is drawn or candidates are compared before invalid parameters are rejected'},
                         {'population_size': n, 'crossover_probability': cp, 'differential_weight': w})
                unknown[str(e)] = unknown.get(str(e), 0) + 1
    # valid parameters
    plan = []
    for cp, w in ((0.0, 0.0), (1.0, 2.0), (0.5, 0.0), (1e-30, 1e-30), (0.9999999, 1.9999999)):
        plan.append(('limits', 4, 2, 0, cp, w))
    sizes = [(4, 1), (4, 2), (5, 2), (5, 3), (6, 3), (7, 2), (8, 3), (9, 2), (11, 2), (13, 3), (4, 3), (10, 2)]
    for k in range(24 if tier == 'quick' else 120):
        n, N_ = sizes[k % len(sizes)]
        iters = [0, 1, n, 2 * n + 1, n - 1, 3 * n][(k // len(sizes) + k) % 6]
        plan.append(('order' if k % 2 == 0 else 'any', n, N_, iters, [0.3, 0.0, 1.0, 0.7, 0.5][k % 5], [0.3, 0.77, 1.61, 0.45][k % 4]))
    for k in range(6 if tier == 'quick' else 20):
        plan.append(('any', 5, 2, 260, [0.0, 0.6][k % 2], 0.77))
    for pl in plan:
        if time.time() - t0 > budget:
            break
        count += execute(s, pl, rnd, stats, note, unknown)
        if want and want in found:
            break
    res = {}
    reach(stats, res)
    note(res, {})
    # sizes beyond the constants of the code
    far = Stats()
    for c in [c for c in consts if c > 5][:4]:
        for v in (c + 1, c + 2, 2 * c + 1):
            if v > 300:
                continue
            for k, (n, N_, iters) in enumerate(((v, 2, 0), (v, 1, v + 3), (5, v, 4), (6, 2, v + 5), (5, v, 40))):
                if time.time() - t0 > budget + 40 or want and want in found:
                    break
                count += execute(s, ('order' if (k + v) % 2 else 'any', n, N_, iters, [0.3, 0.0][k % 2], 0.77), rnd, far, note, unknown)
    return found, unknown, count


# ------------------------------------------------------------------ rules on the summary, for all sizes
class Fail(Exception):
    pass


class Rule:
    """counts the obligations of one property"""

    def __init__(self, s):
        self.s, self.n = s, 0

    def need(self, ok, what):
        self.n += 1
        if ok is not True:
            raise Fail(what)

    def eq(self, a, b, p, what):
        self.need(eqv(a, b, p), '%s: %s is not %s' % (what, show(a)[:300], show(b)[:300]))

    def never(self, c, what):
        self.need(not feasible(c), what)


def valid(s):
    c, w = ein('crossover_probability'), ein('differential_weight')
    return band(ge0(psub(s.n, pc(4))), relb('le', E0, c), relb('le', c, E1), relb('le', E0, w), relb('le', w, ec(2)))


def flat(evs, outer=()):
    for e in evs:
        yield outer, e
        if e.kind == 'loop':
            yield from flat(e.data[3], outer + (e,))


def main_loop(s, R):
    """the loop of num_iters iterations"""
    ls = [e for e in s.events if e.kind == 'loop' and e.data[1] is not None and eqp(e.data[1], s.iters, e.cond) is True
          and any(x.kind == 'call' for _, x in flat(e.data[3]))]
    R.need(len(ls) == 1, 'one loop of num_iters iterations makes the comparisons of the search')
    L = ls[0]
    R.need(L.data[2] is TRUE, 'the search is not left early')
    pops = [x for x in L.data[4] if x[1].k == 'Seq' and eqp(seqlen(x[1]), s.n, L.cond) is True]
    R.need(len(pops) == 1 and len(L.data[4]) == 1, 'the state of the search is the population')
    return L, pops[0]


def search(s, R):
    L, (loc, hv, init, nxt, pp) = main_loop(s, R)
    t = pa(L.data[0])
    calls = [(o, e) for o, e in flat(L.data[3]) if e.kind == 'call']
    R.need(len(calls) == 1 and not calls[0][0], 'one comparison in each iteration')
    call = calls[0][1]
    R.never(band(pp, bnot(call.cond)), 'an iteration without a comparison')
    R.need(len(call.data[1]) == 2, 'two vectors are compared')
    return L, t, hv, init, nxt, pp, call


def row(hv, p):
    return seqat(hv, p)


def r_o01(s):
    R = Rule(s)
    v, pre = valid(s), s.r.pre
    R.need(not any(p.approx for p in s.r.panics), 'panics of unsolved loops')
    bad = FALSE
    for p in s.r.panics:
        R.never(band(p.cond, v), 'a panic (%s at %s) with valid parameters' % (p.kind, p.span))
        bad = bor(bad, p.cond)
    R.need(eqb(bad, band(pre, bnot(v)), pre), 'invalid parameters always panic')
    for o, e in flat(s.events):
        if e.kind != 'panic':
            R.never(band(e.cond, bnot(v)), 'an event (%s) with invalid parameters' % e.kind)
    if s.r.st is not None:
        R.never(band(s.r.st.pc, bnot(v)), 'a result with invalid parameters')
    return R


def r_o02(s):
    R = Rule(s)
    L, t, hv, init, nxt, pp, call = search(s, R)
    i = imod(t, s.n)
    x, y = call.data[1]
    R.eq(y, row(hv, i), call.cond, 'the second vector of the comparison')
    ans = call.data[2]
    want = mkseq(s.n, lambda p: mkseq(s.N, lambda c: merge(band(ans, eqi(p, i)), seqat(x, c), seqat(row(hv, p), c))))
    R.eq(nxt, want, pp, 'the population after an iteration')
    return R


def parts(s, R):
    """donor indices, target index and the condition of a candidate's component"""
    L, t, hv, init, nxt, pp, call = search(s, R)
    x = call.data[1][0]
    q = fresh('q')
    p = band(call.cond, lt(pa(q), s.N))
    name = atoms_named(row(row(hv, P0), P0))
    R.need(len(name) == 1, 'rows of elements')
    name = next(iter(name))
    v = simp(seqat(x, pa(q)), p)
    w = ein('differential_weight')
    don, own, cd = None, None, FALSE
    for l, c in gcases(v):
        R.need(l.k == 'E', 'components are elements')
        if len(l.a) == 1:
            at = l.a[0][0]
            R.need(l.a[0][1] == 1 and len(at) == 1 and at[0].a[1] == 'in' and at[0].a[2] == name and at[0].a[3][0] is t and at[0].a[3][2] is pa(q),
                   'a kept component is the same component of a member')
            R.need(own is None or own is at[0].a[3][1], 'one target')
            own = at[0].a[3][1]
        else:
            ix = {}
            for wd, co in l.a:
                R.need(wd and wd[0].a[1] == 'in' and wd[0].a[2] == name and wd[0].a[3][0] is t and wd[0].a[3][2] is pa(q) and co in (1, -1)
                       and (len(wd) == 1 or len(wd) == 2 and ea(wd[1]) is w), 'donor1 + (donor2 - donor3) * weight')
                ix[(len(wd), co)] = wd[0].a[3][1]
            R.need(set(ix) == {(1, 1), (2, 1), (2, -1)} and len(l.a) == 3, 'donor1 + (donor2 - donor3) * weight')
            d = (ix[(1, 1)], ix[(2, 1)], ix[(2, -1)])
            R.need(don is None or don == d, 'one triple of donors')
            don = d
            cd = bor(cd, c)
    R.need(don is not None and own is not None, 'components from the donors and from the target')
    R.eq(own, imod(t, s.n), p, 'the target')
    return L, t, call, pp, don, own, q, cd, p


def atoms_named(v):
    return {at.a[2] for w, c in v.a for at in w if at.a[1] == 'in'} if v.k == 'E' else set()


def r_o03(s):
    R = Rule(s)
    L, t, call, pp, don, own, q, cd, p = parts(s, R)
    ev = {}
    for d in don:
        R.need(len(d.a) == 1 and d.a[0][1] == 1 and len(d.a[0][0]) == 1 and d.a[0][0][0].a[1] == 'draw', 'a donor is drawn: %s' % show(d)[:100])
        site, ix = ident(d.a[0][0][0])
        es = [(o, e) for o, e in flat(L.data[3]) if e.kind == 'draw' and e.data[0] == 'range' and dig(e.data[5]) is not None and ident(dig(e.data[5]))[0] == site]
        R.need(bool(es), 'the draw of a donor')
        for o, e in es:
            R.eq(e.data[2], P0, e.cond, 'lowest donor')
            R.eq(e.data[3], s.n, e.cond, 'number of possible donors')
            R.need(not e.data[4], 'half-open range of donors')
        ev[d] = es
    al = list(don) + [own]
    for a in range(4):
        for b in range(a):
            R.never(band(call.cond, eqi(al[a], al[b])), 'two of the members combined may be the same')
    # every other member is accepted
    for d in don:
        for o, e in ev[d]:
            if not o:
                continue
            lp = o[-1]
            R.need(lp.data[1] is None, 'redrawn until accepted')
            x = e.data[5]
            others = [y for y in al if y is not d]
            R.never(band(lp.data[2], lt(x, s.n), *[bnot(eqi(x, y)) for y in others]), 'a member that is neither the target nor another donor is refused')
    return R


def r_o04(s):
    R = Rule(s)
    L, t, call, pp, don, own, q, cd, p = parts(s, R)
    for d in don:
        R.never(band(call.cond, eqi(d, own)), 'a donor may be the target')
    rs = [e.data[5] for o, e in flat(L.data[3]) if not o and e.kind == 'draw' and e.data[0] == 'range' and not e.data[4]
          and e.data[2] is P0 and e.data[3].k == 'P' and eqp(e.data[3], s.N, e.cond) is True]
    us = [(o, e) for o, e in flat(L.data[3]) if e.kind == 'draw' and e.data[0] in ('gen', 'random') and e.data[2] == 'f32' and len(o) == 1]
    cp = ein('crossover_probability')
    for r in rs:
        for o, e in us:
            u = subst(e.data[3], {o[0].data[0]: pa(q)})
            if eqb(cd, bor(eqi(pa(q), r), relb('lt', u, cp)), p) is True:
                R.need(True, '')
                return R
    R.need(False, 'a component is taken from the donors if it is the drawn one or a fresh random number is below the probability')


def r_o05(s):
    R = Rule(s)
    for o, e in flat(s.events):
        if e.kind == 'draw':
            R.need(show(e.data[1]) == 'rng', 'a random number from %s' % show(e.data[1])[:80])
    R.need(not s.I.unknown_calls, 'calls of unknown functions: %s' % list(s.I.unknown_calls)[:3])
    return R


def r_o06(s):
    R = Rule(s)
    L, (loc, hv, init, nxt, pp) = main_loop(s, R)
    after = [e for e in s.events[s.events.index(L) + 1:] if e.kind != 'panic']
    Ks = [e for e in after if e.kind == 'loop']
    R.need(len(Ks) == 1 and len(after) == 1, 'one loop selects the winner')
    K = Ks[0]
    t, T, S, evs, trans, _ = K.data
    t = pa(t)
    R.need(T is None and len(trans) == 2, 'rounds with the number of members and the members as their state')
    ln = [x for x in trans if x[1].k == 'P']
    po = [x for x in trans if x[1].k == 'Seq']
    R.need(len(ln) == 1 and len(po) == 1, 'rounds with the number of members and the members as their state')
    _, n, n0, n1, np = ln[0]
    _, P, p0, p1, pp = po[0]
    R.eq(n0, s.n, K.cond, 'all members enter the first round')
    R.eq(p0, subst(hv, {L.data[0]: s.iters}), K.cond, 'the final population enters the first round')
    R.need(eqb(S, lt(P1, n), band(K.cond, le(P1, n))), 'rounds while more than one member is left')
    h = idiv(n, pc(2))
    R.eq(n1, psub(n, h), np, 'members left after a round')
    calls = [(o, e) for o, e in flat(evs) if e.kind == 'call']
    R.need(len(calls) == 1 and len(calls[0][0]) == 1, 'one loop of comparisons in a round')
    (lp,), call = calls[0]
    R.eq(lp.data[1], h, lp.cond, 'comparisons of a round')
    R.need(lp.data[2] is TRUE and not lp.data[4], 'comparisons of a round')
    u = lp.data[0]
    R.never(band(pp, lt(pa(u), h), bnot(call.cond)), 'a comparison left out')
    R.eq(call.data[1][0], row(P, padd(pa(u), h)), call.cond, 'the challenger')
    R.eq(call.data[1][1], row(P, pa(u)), call.cond, 'the defender')
    q = fresh('q')
    ans = subst(call.data[2], {u: pa(q)})
    odd = eqi(imod(n, pc(2)), P1)
    want = lambda c: merge(lt(pa(q), h), merge(ans, seqat(row(P, padd(pa(q), h)), c), seqat(row(P, pa(q)), c)), seqat(row(P, psub(n, P1)), c))
    R.eq(row(p1, pa(q)), mkseq(s.N, want), band(pp, lt(pa(q), psub(n, h))), 'the members after a round')
    r = s.r
    fs = [at for at in terms_atoms(r.val) if at.a[1] == 'first' and at.a[2] == K.data[5]]
    R.need(len(fs) == 1, 'the result is read after the last round')
    R.eq(r.val, subst(row(P, P0), {K.data[0]: pa(fs[0])}), r.st.pc, 'the result')
    return R


def terms_atoms(v):
    out, seen, todo = [], set(), [v]
    while todo:
        x = todo.pop()
        if type(x) is tuple:
            todo += x
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            if x.k == 'atom':
                out.append(x)
            todo += x.a
    return out


def r_o07(s):
    R = Rule(s)
    L, (loc, hv, init, nxt, pp) = main_loop(s, R)
    dr = [(o, e) for o, e in flat(s.events) if e.kind == 'draw' and e.data[0] == 'range' and e.data[2].k != 'P']
    R.need(len(dr) == 1, 'one construct draws initial components')
    o, e = dr[0]
    R.need(len(o) == 2 and all(x.data[2] is TRUE and x.data[1] is not None for x in o), 'drawn for each member and component')
    a, b = o
    m, c = (a, b) if eqp(a.data[1], s.n, a.cond) is True else (b, a)
    R.eq(m.data[1], s.n, m.cond, 'number of members')
    R.eq(c.data[1], s.N, c.cond, 'number of components')
    R.never(band(s.r.pre, valid(s), lt(pa(m.data[0]), s.n), lt(pa(c.data[0]), s.N), bnot(e.cond)), 'a component that is not drawn')
    R.eq(e.data[2], ein('bounds.0', pa(c.data[0])), e.cond, 'lower bound')
    R.eq(e.data[3], ein('bounds.1', pa(c.data[0])), e.cond, 'upper bound')
    R.need(not e.data[4], 'half-open interval')
    R.eq(init, mkseq(s.n, lambda i: mkseq(s.N, lambda j: subst(e.data[5], {m.data[0]: i, c.data[0]: j}))), L.cond, 'the first population')
    return R


RULE = {'O01': r_o01, 'O02': r_o02, 'O03': r_o03, 'O04': r_o04, 'O05': r_o05, 'O06': r_o06, 'O07': r_o07}


def scan_effects(s, recs, fns):
    """effects in the source files of the optimiser"""
    I, _ = build.dump(None, items=True)
    files = {f.rsplit('(', 1)[-1].split(':')[0] for f in fns}
    found, cov = rules.effects(I)
    bad = [x for x in found if x[2].split(':')[0] in files]
    r = {'obligation': 'no other source of randomness or state in the optimiser', 'root': ROOT, 'how': 'effect scan of ' + ', '.join(sorted(files)), 'status': 'proved'}
    if bad:
        _, who, span, det = bad[0]
        r.update(status='violated', why='%s at %s' % (det, span), functions=[who])
    recs.append(r)


def decide(pid, tier):
    import check
    _, W = build.dump('o')
    if ROOT not in W['roots']:
        return [{'obligation': ROOT, 'root': ROOT, 'status': 'undecided', 'why': 'client function missing'}], {}
    t0 = time.time()
    rec = {'obligation': TITLE[pid], 'root': ROOT, 'how': 'all sizes'}
    recs = [rec]
    try:
        s = summary(W, 120 if tier == 'quick' else 300)
    except (IP.Giveup, IP.Budget, RecursionError) as ex:
        rec.update(status='undecided', why='%s: %s' % (type(ex).__name__, ex))
        found, u2, n = instances(W, tier, pid)
        if pid in found:
            why, x = found[pid]
            rec.update(status='violated', why=why, how='rule fails: %s; confirmed on an execution of the summary for fixed sizes' % rec['why'], example=x)
        return recs, {'instance_executions': n}
    fns = check.crate_functions(s.r)
    rec['functions'] = fns
    rec['counts'] = {k: v for k, v in s.I.counts.items() if v}
    cov = {'summary_seconds': round(time.time() - t0, 2), 'summary_events': sum(1 for _ in flat(s.events)), 'summary_loops': sum(1 for _, e in flat(s.events) if e.kind == 'loop')}
    if pid == 'O05':
        scan_effects(s, recs, fns)
    try:
        R = RULE[pid](s)
        rec['status'] = 'proved'
        rec['note'] = '%d entailments of the summary' % R.n
        cov['rule_obligations'] = R.n
    except (Fail, IP.Giveup, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError) as ex:
        rec['status'], rec['why'] = 'undecided', '%s: %s' % (type(ex).__name__, ex)
    if pid == 'O05' and rec['status'] != 'proved':
        for o, e in flat(s.events):
            if e.kind == 'draw' and foreign(show(e.data[1])):
                rec.update(status='violated', why='a random number is drawn from %s' % show(e.data[1])[:100])
    if rec['status'] == 'undecided' or tier == 'thorough':
        found, unknown, n = executions(s, tier, pid, consts=check.constants(W, s.r))
        cov['summary_executions'] = n
        cov['summary_executions_undetermined'] = sum(unknown.values())
        if pid not in found and (unknown or not n) and rec['status'] == 'undecided':
            found, u2, n = instances(W, tier, pid)
            unknown.update(u2)
            cov['instance_executions'] = n
        if pid in found:
            why, ex = found[pid]
            rec.update(status='violated', why=why, how='rule fails: %s; confirmed on an execution of the summary' % rec.get('why', ''), example=ex)
        elif unknown:
            rec['undetermined'] = sorted(unknown.items(), key=lambda x: -x[1])[:3]
    return recs, cov


RULETEXT = {
    'O01': 'the disjunction of all panic conditions in the summary equals the negation of the valid parameters, and no draw, comparison or result is feasible together with invalid ones.',
    'O02': 'the search is one loop with trip count num_iters; each iteration compares (candidate, member t mod n) exactly once, and the population after it equals the one before '
           'except for that member, which becomes the candidate if the answer was yes.',
    'O03': 'the three donor indices are draws from 0..n; that two of them, or one and the target, coincide is infeasible at the comparison; a draw is refused only if it equals the target or another donor.',
    'O04': 'component q of the first vector of the comparison equals donor1[q] + (donor2[q] - donor3[q]) * weight exactly if q is the drawn component or a draw of f32 at (iteration, q) is '
           'below the crossover probability, and the target\'s component otherwise.',
    'O05': 'the source of every draw in the summary is the generator passed by the caller; the functions reached contain no other effect, state or unknown call.',
    'O06': 'rounds while more than one member is left; a round of n members compares member n/2+q with member q for each q < n/2, keeps the better one, and carries the last member of an odd '
           'number over; the result is the only member left. Every member of a round is compared or carried over.',
    'O07': 'one draw for each member and component, from bounds.0[c]..bounds.1[c] half-open, and the first population of the search consists of these draws.',
}
TITLE = {
    'O01': 'panics exactly for invalid parameters, before any event', 'O02': 'transition of the population', 'O03': 'donors distinct and different from the target',
    'O04': 'components of a candidate', 'O05': 'sources of random numbers', 'O06': 'selection of the result', 'O07': 'initial population',
}


if __name__ == '__main__':
    import json, sys
    sys.setrecursionlimit(20000)
    W = json.load(open('/tmp/o.json'))['w']
    t0 = time.time()
    s = summary(W, 60)
    print('summary %.1fs' % (time.time() - t0))
    for p in RULE:
        try:
            t0 = time.time()
            print(p, 'proved', RULE[p](s).n, '%.1fs' % (time.time() - t0))
        except Fail as e:
            print(p, 'FAIL', e)
    t0 = time.time()
    found, unknown, count = executions(s, sys.argv[1] if len(sys.argv) > 1 else 'quick')
    print('%.1fs' % (time.time() - t0), count, 'unknown', unknown)
    for p, x in sorted(found.items()):
        print(p, x)
