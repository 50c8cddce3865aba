"""Forward abstract interpretation of MIR in the domain of terms.py: one pass over the
control-flow graph, states merged at joins, loops summarised by recurrence solving
(checked by induction) or unrolled where the exit is decided by constants."""
import time
from terms import *
import terms
from logic import *
import equal
import layout
from equal import eqv


class Budget(Exception):
    pass


class Giveup(Exception):
    pass


class SplitState(Exception):
    """the loop has to be analysed separately under these conditions"""

    def __init__(self, conds):
        self.conds = conds


class St:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem

    def copy(self):
        return St(self.pc, dict(self.mem))

    def assume(self, c):
        """None if infeasible"""
        q = band(self.pc, c)
        if q is self.pc:
            return self
        if not feasible(q):
            return None
        return St(q, dict(self.mem))


def rootless(v, seen=None):
    """mentions something that is not an input: a loop placeholder, a bound variable or an unknown"""
    seen = set() if seen is None else seen
    if type(v) is tuple:
        return any(rootless(x, seen) for x in v)
    if not isinstance(v, N) or v in seen:
        return False
    seen.add(v)
    if v.k == 'U':
        return True
    if v.k == 'atom':
        if v.a[1] in ('phi', 'unk', 'choice', 'havoc', 'bound'):
            return True
        if v.a[1] == 'sym' and ('~' in v.a[2] or v.a[2].startswith('havoc')):
            return True
    return any(rootless(x, seen) for x in v.a)


def has_unk(v, seen=None):
    seen = set() if seen is None else seen
    if type(v) is tuple:
        return any(has_unk(x, seen) for x in v)
    if not isinstance(v, N) or v in seen:
        return False
    seen.add(v)
    if v.k == 'U' or v.k == 'atom' and v.a[1] in ('unk', 'havoc'):
        return True
    return any(has_unk(x, seen) for x in v.a)


def merge_states(sts):
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    a = sts[0]
    for b in sts[1:]:
        pc = bor(a.pc, b.pc)
        sel = restrict(a.pc, pc)
        if sel is TRUE or sel is FALSE:
            # cannot be told apart: keep soundness by an opaque choice
            sel = bapp('choice', a.pc, b.pc)
        mem = {}
        for r in a.mem.keys() | b.mem.keys():
            x = a.mem.get(r)
            y = b.mem.get(r)
            if x is y:
                mem[r] = x
            elif x is None or y is None:
                mem[r] = x if y is None else y
            else:
                mem[r] = merge(sel, x, y)
        a = St(pc, mem)
    return a


class Panic:
    __slots__ = ('cond', 'kind', 'span', 'fn', 'approx', 'mem')

    def __init__(self, cond, kind, span, fn, approx=False, mem=None):
        self.mem = mem or {}
        self.cond, self.kind, self.span, self.fn, self.approx = cond, kind, span, fn, approx

    def __repr__(self):
        return 'panic[%s at %s in %s] if %s' % (self.kind, self.span, self.fn, show(self.cond))


class Ev:
    """an observable event: draws, comparator calls"""
    __slots__ = ('cond', 'kind', 'data')

    def __init__(self, cond, kind, data):
        self.cond, self.kind, self.data = cond, kind, data

    def __repr__(self):
        return '%s%s if %s' % (self.kind, show(self.data) if self.kind != 'loop' else str(self.data), show(self.cond))


def rpo_and_loops(fn):
    c = fn.get('_cfg')
    if c:
        return c
    blocks = fn['blocks']
    n = len(blocks)

    def succs(i):
        t = blocks[i]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None and t[3] >= 0 else [])
        if k == 'call':
            return [t[4 - 0]] if t[4] is not None and t[4] >= 0 else []
        if k == 'assert':
            return [t[5]]
        if k == 'drop':
            return [t[2]]
        return []

    order = []
    state = {}
    stack = [(0, iter(succs(0)))]
    state[0] = 1
    back = []
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in state:
                state[s] = 1
                stack.append((s, iter(succs(s))))
                break
            if state[s] == 1:
                back.append((b, s))
        else:
            state[b] = 2
            order.append(b)
            stack.pop()
    order.reverse()
    pos = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(b):
            preds[s].append(b)
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        todo = [b]
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += preds[x]
    fn['_cfg'] = (order, pos, loops, {b: succs(b) for b in order})
    fn['_live'] = None
    return fn['_cfg']


def liveness(fn):
    if fn.get('_live'):
        return fn['_live']
    order, pos, loops, succ = rpo_and_loops(fn)
    use, df = {}, {}

    def pl_uses(p, u):
        for e in p[1]:
            if e[0] == 'I':
                u.add(e[1])

    for b in order:
        u, d = set(), set()

        def rd(l):
            if l not in d:
                u.add(l)

        def rd_place(p):
            rd(p[0])
            for e in p[1]:
                if e[0] == 'I':
                    rd(e[1])

        def rd_op(o):
            if o[0] in ('cp', 'mv'):
                rd_place(o[1])

        def wr(p):
            if not p[1]:
                d.add(p[0])
            else:
                rd_place(p)

        def walk(x):
            # generic walk over rvalue json for operands / places
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], list):
                    rd_place(x[1])
                    return
                for y in x:
                    walk(y)

        for s in fn['blocks'][b]['s']:
            if s[0] == '=':
                rv = s[2]
                if rv[0] in ('ref', 'raw', 'discr'):
                    rd_place(rv[-1] if rv[0] != 'discr' else rv[1])
                else:
                    walk(rv)
                wr(s[1])
            elif s[0] == 'setd':
                rd_place(s[1])
        t = fn['blocks'][b]['t']
        if t[0] == 'call':
            walk(t[1])
            walk(t[2])
            wr(t[3])
        elif t[0] == 'switch':
            walk(t[1])
        elif t[0] == 'assert':
            walk(t[1])
        elif t[0] == 'drop':
            pass
        elif t[0] == 'ret':
            rd(0)
        use[b], df[b] = u, d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set()
            for s in succ[b]:
                out |= live[s]
            n = use[b] | (out - df[b])
            if n != live[b]:
                live[b] = n
                ch = True
    fn['_live'] = live
    return live


class Interp:
    def __init__(self, W, mode='ring', inst=None, concrete=False, limit=60.0):
        self.W = W
        self.T = W['types']
        self.fns = W['fns']
        self.mode = mode
        self.inst = inst or {}
        self.params = set()
        self.concrete = concrete
        self.cut = False      # name the state of unsolved loops instead of unrolling them
        self.panics = []
        self.events = []
        self.ovf = []
        self.active = []
        self.nframe = 0
        self.unk = 0
        self.may_split = False
        self.ntmp = 0
        self.own_eq = {}
        self.nroot = 0
        self.stack = []
        self.loopidx = []
        self.deadline = time.time() + limit
        self.visited = set()      # functions analysed
        self.unknown_calls = {}
        self.counts = {'calls': 0, 'loops_solved': 0, 'loops_unrolled': 0, 'loops_havoc': 0, 'asserts': 0, 'joins': 0}
        self.tyargs = []
        self.notes = []
        self.premise = TRUE       # initial assumptions
        self.intbounds = {}
        self.impure = set()       # opaque functions that may answer differently on every call
        self.rootname = ''
        self.reads = False        # reads of caller-supplied expressions and functions are events

    def deep(self, st, v, d=0):
        """the value with references followed, for recognising a repeated call"""
        if v is None or v.hasu or d > 5:
            return None
        if v.k == 'Ptr':
            x = self.deep(st, self.load(st, v), d + 1)
            return None if x is None else ('&', x)
        if v.k in ('Agg', 'Enum'):
            xs = [v.a[0]] + [self.deep(st, x, d + 1) for x in (v.a[1] if v.k == 'Agg' else [y for c in v.a[1] for y in c[2]])]
            return None if any(x is None for x in xs) else tuple(xs + ([c[:2] for c in v.a[1]] if v.k == 'Enum' else []))
        return v

    def wrapped(self, op, r, st):
        """the machine word an addition or multiplication leaves without overflow checks: unknown, its exact value is recorded"""
        if r.k == 'G':
            return gmap(r, lambda l: self.wrapped(op, l, st))
        if r.k != 'P' or pconst(r) is not None:
            return r
        w = fresh('word')
        self.ovf.append((w, subst(r, {a: v for a, v, *_ in self.ovf}), op, st.pc, self.site()))
        return pa(w)

    _discrs = None
    # machine arithmetic without overflow checks
    wrap = False

    # -------------------------------------------------------------- basics
    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def newroot(self, st, v):
        self.nroot += 1
        r = 'h%d' % self.nroot
        st.mem[r] = v
        return r

    def split(self, st, vs):
        """an operation has no answer for a value that is one of several sequences: analyse the cases separately"""
        if not self.may_split or self.cut:
            return
        vs = [f for v in vs if v is not None for f in ([v] + [x for x in v.a[1] if x is not None] if v.k == 'Agg' and isinstance(v.a[0], str) and 'ops::range' in v.a[0] else [v])]
        for v in vs:
            for d in (v, self.load(st, v) if v.k in ('Ptr', 'G') and all(l.k == 'Ptr' for l, c in gcases(v)) else None):
                if d is not None and d.k == 'G':
                    d = simp(d, st.pc)
                if d is not None and d.k == 'G' and all(l.k in ('Seq', 'Enum', 'Ptr', 'Agg', 'P') for l, c in d.a[0]):
                    cs = [c for l, c in d.a[0]]
                    if not any(rootless(c) for c in cs):
                        raise SplitState(cs)

    def site(self):
        return '/'.join('%s:%d' % (f, b) for f, b in self.stack)

    def ty(self, i):
        return self.T[i]

    def intparam(self, name):
        self.params.add(name)
        if name in self.inst:
            v = self.inst[name]
            return v if isinstance(v, N) else pc(v)
        return psym(name)

    def constp(self, c):
        """generic constant (array length etc.)"""
        if isinstance(c, dict):
            if 'param' in c:
                return self.intparam(c['param'])
            if 'bits' in c:
                return pc(int(c['bits']))
            return None
        if isinstance(c, (int, str)):
            try:
                return pc(int(c))
            except ValueError:
                return self.intparam(c)
        return None

    # -------------------------------------------------------------- inputs
    def fresh_val(self, tyi, name, idx=(), st=None, signed=False):
        t = self.ty(tyi)
        k = t['k']
        if k in ('param', 'float', 'alias', 'opaque'):
            return ein(name, *idx)
        if k == 'bool':
            return bat(atom('b', 'in', name, tuple(idx)))
        if k in ('uint', 'int'):
            if not idx:
                return self.intparam(name)
            return pa(atom('i', 'iapp', name, tuple(idx)))
        if k == 'array':
            n = self.constp(t['n'])
            return mkseq(n, lambda p: self.fresh_val(t['e'], name, idx + (p,), st))
        if k in ('slice', 'str'):
            n = self.intparam('len(%s)' % name)
            return mkseq(n, lambda p: self.fresh_val(t['e'], name, idx + (p,), st))
        if k == 'tuple':
            return agg('tuple', [self.fresh_val(f, '%s.%d' % (name, i), idx, st) for i, f in enumerate(t['f'])])
        if k in ('ref', 'ptr'):
            if idx:
                raise Giveup('reference inside a sequence')
            v = self.fresh_val(t['e'], name, idx, st)
            r = 'in:' + name
            st.mem[r] = v
            return ptr(r)
        if k == 'adt':
            p = t['p']
            if p in ('alloc::vec::Vec',):
                n = self.intparam('len(%s)' % name)
                return mkseq(n, lambda q: self.fresh_val(t['a'][0]['t'], name, idx + (q,), st))
            if p == 'alloc::boxed::Box':
                return self.fresh_val(t['a'][0]['t'], name, idx, st)
            if t.get('enum'):
                raise Giveup('enum input')
            if t.get('v'):
                fs = t['v'][0][2]
                if len(fs) == 1:
                    return agg(p, [self.fresh_val(fs[0][1], name, idx, st)])
                if not idx and p.split('::')[-1] == 'DMatrix':
                    return self.fresh_matrix(p, fs, name, st)
                return agg(p, [self.fresh_val(f, '%s.%s' % (name, fn_), idx, st) for fn_, f in fs])
        raise Giveup('input of type ' + t.get('s', k))

    def fresh_matrix(self, p, fs, name, st):
        """a dynamic matrix in its invariant state: rows * columns stored entries (invariant: property D10)"""
        r = layout.plan(self.ty, fs)
        if r is None:
            raise Giveup('representation of %s' % p)
        elem = r[2]
        if self.W.get('rawmatrix'):
            L = layout.default(self, p, fs)
            self.matlayout = L
            return L.build(mkseq(self.intparam('len(%s#)' % name), lambda q: self.fresh_val(elem, name + '#', (q,), st)),
                           {i: self.intparam('%s#%d' % (name, i)) for i in range(L.ints)})
        L = self.W.get('layout') or layout.default(self, p, fs)
        if L is None or L.rows is None or L.cols is None or L.ints != r[1]:
            raise Giveup('representation of %s' % p)
        self.matlayout = L
        rows, cols = self.intparam('%s.num_rows' % name), self.intparam('%s.num_cols' % name)
        return L.build(mkseq(pmul(rows, cols), lambda q: self.fresh_val(elem, name + '.data', (q,), st)), L.fields(rows, cols))

    # -------------------------------------------------------------- memory
    def rd(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            return U('uninitialised %s' % (root,))
        return self.nav(st, v, path)

    def nav(self, st, v, path):
        for i, e in enumerate(path):
            if v is None:
                return U('uninitialised part')
            if v.k == 'G':
                rest = path[i:]
                return gmap(v, lambda l: self.nav(st, l, rest))
            v = self.nav1(st, v, e)
        return v if v is not None else U('uninitialised part')

    def nav1(self, st, v, e):
        k = e[0]
        if v.k == 'U':
            return v
        if k == 'f':
            if v.k == 'Agg':
                if e[1] < len(v.a[1]):
                    return v.a[1][e[1]]
                return U('field')
            if v.k == 'Enum' and len(v.a[1]) == 1:
                return v.a[1][0][2][e[1]]
            return U('field of %s' % v.k)
        if k == 'v':
            if v.k == 'Enum':
                for vi, c, f in v.a[1]:
                    if vi == e[1]:
                        return agg(('variant', v.a[0], vi), f)
                return U('variant')
            return U('variant of %s' % v.k)
        if k == 'i':
            if v.k != 'Seq':
                return U('index of %s' % v.k)
            r = seqat(v, e[1])
            if r is not None and r.k in ('G', 'B') or (r is not None and r.k in ('Agg', 'Seq', 'E') and r.deps):
                r = simp(r, st.pc)
            return r
        if k == 'sub':
            if v.k != 'Seq':
                return U('slice of %s' % v.k)
            s0, n = e[1], e[2]
            if s0 is P0 and n is seqlen(v):
                return v
            return mkseq(n, lambda p: seqat(v, padd(p, s0)))
        if k == 'rev':
            n = seqlen(v)
            return mkseq(n, lambda p: seqat(v, psub(psub(n, P1), p)))
        return U('path %s' % (e,))

    def wr(self, st, root, path, val):
        """functional update in place of st.mem"""
        old = st.mem.get(root)
        if not path:
            st.mem[root] = val
            return
        if old is None:
            if len(path) == 1 and path[0][0] == 'f':
                # field-wise initialisation
                fs = [None] * (path[0][1] + 1)
                fs[path[0][1]] = val
                st.mem[root] = agg('partial', fs)
                return
            st.mem[root] = U('write to uninitialised')
            return
        st.mem[root] = self.upd(st, old, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        if v is None:
            return U('write to uninitialised part')
        if v.k == 'U':
            if v.a[0] == 'uninitialised box' and all(e[0] == 'f' for e in path):
                return val        # MaybeUninit wraps nothing but the value
            return v
        if v.k == 'G':
            return gmap(v, lambda l: self.upd(st, l, path, val))
        e = path[0]
        k = e[0]
        if k == 'f':
            if v.k == 'Agg':
                fs = list(v.a[1])
                while len(fs) <= e[1]:
                    fs.append(None)
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return agg(v.a[0], fs)
            return U('write field of %s' % v.k)
        if k == 'v':
            if v.k == 'Enum':
                cs = []
                for vi, c, f in v.a[1]:
                    if vi == e[1]:
                        f2 = self.upd(st, agg(('variant', v.a[0], vi), f), path[1:], val)
                        if f2.k != 'Agg':
                            return f2
                        f = f2.a[1]
                    cs.append((vi, c, f))
                return enum(v.a[0], cs)
            return U('write variant')
        if k == 'i':
            if v.k != 'Seq':
                return U('write index of %s' % v.k)
            if len(path) == 1:
                nv = val
            else:
                nv = self.upd(st, seqat(v, e[1]), path[1:], val)
            return seqset(v, e[1], nv)
        if k == 'sub':
            if v.k != 'Seq':
                return U('write slice of %s' % v.k)
            s0, n = e[1], e[2]
            if len(path) > 1 and path[1][0] == 'i':
                return self.upd(st, v, (('i', padd(path[1][1], s0)),) + path[2:], val)
            sub = self.nav1(st, v, e)
            nv = self.upd(st, sub, path[1:], val)
            if nv.k != 'Seq':
                return nv
            return mkseq(seqlen(v), lambda p: merge(band(le(s0, p), lt(p, padd(s0, n))), seqat(nv, psub(p, s0)) if pconst(psub(p, s0)) is None or 0 <= pconst(psub(p, s0)) < (pconst(n) if pconst(n) is not None else 1 << 60) else U('out of range'), seqat(v, p)))
        return U('write path')

    def load(self, st, p):
        """value behind a pointer value"""
        if p.k == 'U':
            return p
        if p.k == 'G':
            return gmap(p, lambda l: self.load(st, l))
        if p.k == 'Ptr':
            return self.rd(st, p.a[0], p.a[1])
        if p.k == 'E':
            return p          # reference of an opaque type: the element itself
        return U('deref of %s' % p.k)

    def store(self, st, p, v):
        if p.k == 'Ptr':
            self.wr(st, p.a[0], p.a[1], v)
        elif p.k == 'G':
            for l, c in p.a[0]:
                if l.k == 'Ptr':
                    old = self.rd(st, l.a[0], l.a[1])
                    self.wr(st, l.a[0], l.a[1], merge(c, v, old))
                else:
                    self.havoc_all(st, 'store through unknown pointer')
        else:
            self.havoc_all(st, 'store through unknown pointer')

    def havoc_all(self, st, why):
        for r in list(st.mem):
            st.mem[r] = U(why)

    def deref(self, st, v):
        """follow references until a non-pointer value"""
        n = 0
        while True:
            if v.k == 'Ptr' or (v.k == 'G' and v.a[0][0][0].k == 'Ptr'):
                v = self.load(st, v)
                n += 1
                if n > 10:
                    return U('deep reference')
            else:
                return v

    def sub_ptr(self, p, *more):
        return gmap(p, lambda l: ptr(l.a[0], norm_path(l.a[1] + tuple(more))) if l.k == 'Ptr' else (l if l.k in ('U',) else U('pointer %s' % l.k)))

    # -------------------------------------------------------------- panics
    def panic(self, st, cond, kind, span):
        """records the panic; returns the surviving state or None"""
        self.counts['asserts'] += 1
        cond = simpb(cond, st.pc)
        if cond is FALSE:
            return st
        c = band(st.pc, cond)
        if feasible(c):
            self.panics.append(Panic(c, kind, span, self.stack[-1][0] if self.stack else '?', mem={k: v for k, v in st.mem.items() if type(k) is str and k.startswith('in:')}))
            if self.cut:
                self.events.append(Ev(c, 'panic', (kind, span, self.stack[-1][0] if self.stack else '?')))
        ok = band(st.pc, bnot(cond))
        if not feasible(ok):
            return None
        return St(ok, dict(st.mem))

    # -------------------------------------------------------------- functions
    def run_fn(self, key, args, st, keep_locals=False):
        """returns (value, state) or (None, None) when it never returns"""
        self.tick()
        fn = self.fns[key]
        self.visited.add(key)
        if len(self.stack) > (300 if self.concrete else 60):
            raise Giveup('recursion')
        act = None
        if any(f == fn['path'] for f, b in self.stack) and not self.cut:
            act = (key, tuple(self.deep(st, a) for a in args))
            if act in self.active and not any(x is None for x in act[1]):
                # the same call is already under way: these inputs recurse without end
                self.panic(st, TRUE, 'endless recursion', fn.get('span', ''))
                return None, None
        if sum(1 for f, b in self.stack if f == fn['path']) > (70 if self.concrete else 3):
            raise Giveup('recursion in ' + fn['path'])
        if act is None:
            act = (key, tuple(self.deep(st, a) for a in args))
        self.active.append(act)
        self.nframe += 1
        fid = self.nframe
        st = st.copy()
        if len(args) != fn['argc']:
            if fn.get('spread', -1) >= 0 or len(args) == 2 and fn['argc'] != 2:
                pass
            raise Giveup('arity of %s: %d vs %d' % (key[:80], len(args), fn['argc']))
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.stack.append((fn['path'], 0))
        try:
            rets = []
            outs = self.region(fn, fid, 0, st, None, None)
            for tgt, s in outs:
                if tgt == 'ret':
                    rets.append(s)
            s = merge_states(rets)
        finally:
            self.stack.pop()
            self.active.pop()
        if s is None:
            return None, None
        v = s.mem.get((fid, 0))
        if v is None:
            v = UNIT
        if not keep_locals:
            s = St(s.pc, {r: x for r, x in s.mem.items() if not (type(r) is tuple and r[0] == fid)})
        return v, s

    def region(self, fn, fid, entry, st, blocks, header):
        """executes an acyclic region (inner loops collapsed); returns [(target, state)];
        target 'back' for edges to header, 'ret', or a block outside"""
        order, pos, loops, succ = rpo_and_loops(fn)
        pending = {entry: [st]}
        outs = []
        first = True
        while pending:
            b = min(pending, key=lambda x: pos[x])
            sts = pending.pop(b)
            if len(sts) > 1:
                self.counts['joins'] += 1
            s = merge_states(sts)
            if s is None:
                continue
            self.tick()
            if b in loops and not (first and b == header):
                res = self.mir_loop(fn, fid, b, s)
            else:
                res = self.block(fn, fid, b, s)
            first = False
            for tgt, s2 in res:
                if s2 is None:
                    continue
                if tgt == 'ret':
                    outs.append(('ret', s2))
                elif header is not None and tgt == header:
                    outs.append(('back', s2))
                elif blocks is not None and tgt not in blocks:
                    outs.append((tgt, s2))
                else:
                    pending.setdefault(tgt, []).append(s2)
        return outs

    # -------------------------------------------------------------- loops
    def mir_loop(self, fn, fid, h, st):
        order, pos, loops, succ = rpo_and_loops(fn)
        body = loops[h]
        live = liveness(fn)[h]

        def step(s):
            back, exits = [], []
            for tgt, s2 in self.region(fn, fid, h, s, body, h):
                if tgt == 'back':
                    back.append(s2)
                else:
                    exits.append((tgt, s2))
            return merge_states(back), exits

        def keep(s):
            """roots that matter across the back edge"""
            roots = set()
            todo = [r for r in s.mem if not (type(r) is tuple and r[0] == fid) or r[1] in live]
            while todo:
                r = todo.pop()
                if r in roots or r not in s.mem:
                    continue
                roots.add(r)
                for q in ptr_roots(s.mem[r]):
                    todo.append(q)
            return roots

        return self.run_loop(st, step, keep, '%s:%d' % (fn['path'], h))

    def run_loop(self, st, step, keep=None, name='loop', base=P0):
        """returns [(exit tag, state)]"""
        outs = []
        it = 0
        prev = None        # the state before the last iteration, if that could not be left
        if len(self.loopidx) > 40:
            raise Giveup('loop splitting')
        limit = 420 if self.concrete else 12
        self.loopidx.append(P0)
        try:
            while True:
                self.tick()
                if keep:
                    kr = keep(st)
                    st = St(st.pc, {r: v for r, v in st.mem.items() if r in kr})
                if prev is not None and prev.pc is st.pc and prev.mem == st.mem and not any(v is None or v.hasu for v in st.mem.values()):
                    # an iteration that cannot be left and changes nothing: it is repeated without end
                    self.panic(st, TRUE, 'endless loop', name)
                    return outs
                prev = st
                self.loopidx[-1] = base
                np, ne = len(self.panics), len(self.events)
                back, exits = step(st)
                if back is None:
                    outs += exits
                    self.counts['loops_unrolled'] += 1
                    return outs
                if exits or (it == 0 and not self.concrete):
                    # not decided: summarise from this header state
                    sp, se = self.panics[np:], self.events[ne:]
                    del self.panics[np:], self.events[ne:]
                    try:
                        r = self.summarise(st, step, keep, name, back, base)
                    except SplitState as e:
                        del self.panics[np:], self.events[ne:]
                        for c in e.conds:
                            s2 = st.assume(c)
                            if s2 is not None:
                                s2 = St(s2.pc, {k: (simp(v, s2.pc) if v is not None else v) for k, v in s2.mem.items()})
                                outs += self.run_loop(s2, step, keep, name, base)
                        return outs
                    if r is not None:
                        return outs + r
                    if exits and not self.concrete and (it >= 2 or self.cut):
                        self.counts['loops_havoc'] += 1
                        self.notes.append('unsolved loop ' + name)
                        return outs + self.havoc_loop(st, step, keep, name)
                    self.panics += sp
                    self.events += se
                outs += exits
                if exits:
                    prev = None
                st = back
                it += 1
                base = padd(base, P1)
                if it > limit:
                    self.notes.append('loop limit ' + name)
                    self.counts['loops_havoc'] += 1
                    return outs + self.havoc_loop(st, step, keep, name)
        finally:
            self.loopidx.pop()

    def havoc_loop(self, st, step, keep, name):
        """everything the loop may change becomes unknown"""
        gen = st.copy()
        np, ne = len(self.panics), len(self.events)
        for _ in range(12):
            back, exits = step(gen)
            del self.panics[np:], self.events[ne:]
            if back is None:
                break
            roots = keep(back) if keep else back.mem.keys()
            ch = False
            for r in roots:
                if r in gen.mem and gen.mem[r] is not back.mem[r]:
                    nv = havoc_value(gen.mem[r], back.mem[r])
                    if nv is not gen.mem[r]:
                        gen.mem[r] = nv
                        ch = True
            if not ch:
                break
        else:
            self.havoc_all(gen, 'loop ' + name)
        back, exits = step(gen)
        if not exits and len(self.panics) == np:
            # no state the loop may reach leaves it
            del self.events[ne:]
            self.panic(st, TRUE, 'endless loop', name)
            return exits
        for p in self.panics[np:]:
            p.approx = True
        return exits

    def summarise(self, st0, step, keep, name, back0, it0, phase=None):
        """phase: summarise only the iterations before this one, then continue"""
        t = fresh('t')
        tp = pa(t)
        pc0 = st0.pc
        if phase is not None:
            pc0 = band(pc0, lt(tp, phase))
        cells = {}     # (root, path) -> dict(phi=, init=, closed=None)
        pn, en = len(self.panics), len(self.events)
        self.loopidx[-1] = padd(tp, it0)

        def gen_state():
            g = St(pc0, dict(st0.mem))
            for (r, p), c in cells.items():
                self.wr_raw(g, r, p, c['closed'] if c['closed'] is not None else c['phi'])
            return g

        def iterate(g):
            n1, n2 = len(self.panics), len(self.events)
            back, exits = step(g)
            del self.panics[n1:], self.events[n2:]
            return back, exits

        # 1. which locations change
        back = back0
        g = gen_state()
        for rnd in range(14):
            self.tick()
            roots = keep(back) if keep else set(back.mem)
            new = []
            for r in roots:
                if r in g.mem and g.mem[r] is not None:
                    difflocs(g.mem[r], back.mem.get(r), (), lambda p, a, b, r=r: new.append((r, p, a, b)))
            added = False
            norm = False
            for r, p, a, b in new:
                w = self.whole_slice(st0, a, b)
                if w is not None and (r, p) not in cells:
                    # a slice that shrinks: write the initial one as a part of the whole
                    st0 = st0.copy()
                    st0.mem[r] = raw_set(st0.mem[r], p, w)
                    norm = True
            if norm:
                g = gen_state()
                back, exits = iterate(g)
                if back is None:
                    return None
                continue
            for r, p, a, b in new:
                if (r, p) in cells or a is None:
                    continue
                # a location inside (or containing) an existing cell
                if any(r2 == r and (p2[:len(p)] == p or p[:len(p2)] == p2) for r2, p2 in cells):
                    covering = [(r2, p2) for r2, p2 in cells if r2 == r and p[:len(p2)] == p2]
                    if covering:
                        continue
                    for x in [(r2, p2) for r2, p2 in cells if r2 == r and p2[:len(p)] == p]:
                        del cells[x]
                init = raw_get(st0.mem[r], p)
                if init.k == 'G' and any(l.k in ('Seq', 'Enum', 'Ptr', 'Agg') for l, c in init.a[0]):
                    cs = [c for l, c in init.a[0]]
                    if any(has_unk(c) for c in cs) or any(band(st0.pc, c) is st0.pc for c in cs):
                        self.notes.append('loop %s: undetermined sequence' % name)
                        return None
                    raise SplitState(cs)
                ph = placeholder(init, b, st0.pc)
                if ph is None:
                    self.notes.append('loop %s: no placeholder for %s' % (name, show(init)[:80]))
                    return None
                cells[(r, p)] = {'phi': ph, 'init': init, 'closed': None}
                added = True
            if not added:
                break
            g = gen_state()
            back, exits = iterate(g)
            if back is None:
                return None
        else:
            return None
        # 2. solve
        unsolved = list(cells)
        guessed = self.cut
        rnd = 0
        while rnd < 10:
            rnd += 1
            self.tick()
            if not unsolved:
                break
            g = gen_state()
            back, exits = iterate(g)
            if back is None:
                return None
            prog = False
            phis = {}
            # placeholders of the enclosing loops are constants of this one
            outer = set()
            for c in cells.values():
                outer |= phi_atoms(c['init'])
            for c in unsolved:
                for at in phi_atoms(cells[c]['phi']) - outer:
                    phis[at] = c
            for loc in list(unsolved):
                c = cells[loc]
                r, p = loc
                N_ = raw_get(back.mem.get(r), p)
                if N_ is None:
                    return None
                N_ = simp(N_, back.pc)
                own = phi_atoms(c['phi']) - outer
                others = {a for a in phis if a not in own}
                sol = solve_cell(c, N_, t, own, others, back.pc, self)
                if sol is None:
                    continue
                kind, val = sol
                if kind == 'closed':
                    c['closed'] = val
                    unsolved.remove(loc)
                    prog = True
                else:           # partial: better placeholder (e.g. known length)
                    c['phi'] = val
                    prog = True
            if not prog:
                if guessed:
                    break
                guessed = True
                if phase is None and self.by_start(unsolved, cells, back, t, outer, st0.pc) is not None:
                    break
                if not self.guess(unsolved, cells, back0, tp, st0.pc):
                    break
                rnd = 0
        bad = list(unsolved)
        if bad and phase is None:
            tau = None
            for loc in bad:
                N_ = raw_get(back.mem.get(loc[0]), loc[1])
                tau = threshold(N_, t, {a for c in cells.values() for a in phi_atoms(c['phi'])} - outer, st0.pc)
                if tau is not None:
                    break
            if tau is None and not self.cut:
                tau = self.by_start(bad, cells, back, t, outer, st0.pc)
            if tau is not None:
                if not entails(st0.pc, ge0(tau)):
                    raise SplitState([ge0(tau), lt(tau, P0)])
                if entails(st0.pc, lt(P0, tau)):
                    return self.summarise(st0, step, keep, name, back0, it0, tau)
                if feasible(band(st0.pc, lt(P0, tau))):
                    raise SplitState([lt(P0, tau), le(tau, P0)])
        if bad:
            for loc in bad:
                self.notes.append('loop %s: unsolved %s: %s -> %s' % (name, show(loc)[:60], show(cells[loc]['phi'])[:60], show(raw_get(back.mem.get(loc[0]), loc[1]))[:200]))
                if self.concrete:
                    return None
                if self.cut:
                    nv = raw_get(back.mem.get(loc[0]), loc[1])
                    hv = placeholder(cells[loc]['init'], nv, st0.pc, tuple(self.loopidx[:-1]) + (tp,))
                    if hv is None or nv.hasu:
                        return None
                    cells[loc]['closed'] = hv
                else:
                    cells[loc]['closed'] = havoc_value(cells[loc]['init'], None)
        inv = TRUE
        if bad and self.cut:
            inv = self.invariants(bad, cells, st0, gen_state, iterate)
            if inv is None:
                return None
            pc0 = band(pc0, inv)
        # 3. trip count
        g = gen_state()
        back, exits = iterate(g)
        if back is None:
            return None
        ex = FALSE
        for tag, s in exits:
            ex = bor(ex, s.pc)
        ex = simpb(restrict(ex, pc0), pc0)
        cont = bnot(ex)
        T, S = trip(cont, t, pc0)
        if S is not TRUE and not self.cut:
            # a bound that is chosen before the loop
            for at in sorted(support(S), key=lambda x: x.id):
                if t not in at.deps and not has_unk(at) and not any(at.deps & cells[l]['closed'].deps - outer for l in bad):
                    c = bat(at)
                    if feasible(band(st0.pc, c)) and feasible(band(st0.pc, bnot(c))):
                        raise SplitState([c, bnot(c)])
        if T is None and S is TRUE and phase is None:
            return None
        rng = TRUE if T is None else lt(tp, T)
        if phase is not None:
            if S is not TRUE:
                return None
            rng = band(rng, lt(tp, phase))
        # 4. induction check
        g2 = St(band(st0.pc, rng, S, inv), g.mem)
        n1, n2 = len(self.panics), len(self.events)
        allS = TRUE
        if S is not TRUE:
            s_ = fresh('s')
            allS = forall(s_, bimp(band(lt(pa(s_), T) if T is not None else TRUE), subst(S, {t: pa(s_)})))
        if not feasible(g2.pc):
            # the loop body is never repeated
            back = None
        else:
            back, exits = step(g2)
            if back is not None:
                back = back.assume(TRUE)
        nxt = {t: padd(tp, P1)}
        if back is not None:
            for loc, c in cells.items():
                r, p = loc
                if loc in bad:
                    continue
                got = raw_get(back.mem.get(r), p)
                want = subst(c['closed'], nxt)
                if eqv(got, want, back.pc) is not True:
                    self.failed = (got, want, back.pc)
                    self.notes.append('loop %s: induction fails for %s: %s vs %s' % (name, show(loc)[:60], show(got)[:3000], show(want)[:3000]))
                    del self.panics[n1:], self.events[n2:]
                    return None
                if eqv(subst(c['closed'], {t: P0}), c['init'], st0.pc) is not True:
                    self.notes.append('loop %s: base fails for %s: %s vs %s' % (name, show(loc)[:60], show(subst(c['closed'], {t: P0}))[:200], show(c['init'])[:200]))
                    del self.panics[n1:], self.events[n2:]
                    return None
        # panics and events of the body, quantified over the iterations
        for p in self.panics[n1:]:
            p.cond = exists(t, band(rng, p.cond)) if t in p.cond.deps else p.cond
        evs = self.events[n2:]
        del self.events[n2:]
        if evs or (self.cut and bad):
            trans = [(loc, cells[loc]['closed'], cells[loc]['init'], raw_get(back.mem.get(loc[0]), loc[1]) if back is not None else None,
                      back.pc if back is not None else FALSE) for loc in bad] if self.cut else []
            self.events.append(Ev(st0.pc, 'loop', (t, T, S, evs, trans, name)))
        self.counts['loops_solved'] += 1
        # 5. exits
        outs = []
        if phase is not None:
            m = {t: phase}
            f = St(band(st0.pc, le(phase, T) if T is not None else TRUE), {r: (subst(v, m) if v is not None else v) for r, v in g.mem.items()})
            if feasible(f.pc):
                f.mem = {r: (simp(v, f.pc) if v is not None else v) for r, v in f.mem.items()}
                outs += self.run_loop(f, step, keep, name, padd(phase, it0))
        if T is not None:
            m = {t: T}
            f = St(band(st0.pc, allS, subst(inv, m), lt(T, phase) if phase is not None else TRUE), {r: (subst(v, m) if v is not None else v) for r, v in g.mem.items()})
            self.loopidx[-1] = padd(T, it0)
            if feasible(f.pc):
                f.mem = {r: (equal.settle(simp(v, f.pc), f.pc) if v is not None else v) for r, v in f.mem.items()}
                n1, n2 = len(self.panics), len(self.events)
                b2, ex2 = step(f)
                if b2 is not None and feasible(b2.pc):
                    self.notes.append('loop %s: exit not decided at the trip count %s: %s' % (name, show(T), show(b2.pc)[:300]))
                    del self.panics[n1:], self.events[n2:]
                    return None
                outs += ex2
        if S is not TRUE:
            fi = pa(atom('i', 'first', name, allS, tuple(self.loopidx[:-1])))
            m = {t: fi}
            cond = band(st0.pc, bnot(allS), subst(bnot(S), m), subst(inv, m), lt(fi, T) if T is not None else TRUE)
            self.loopidx[-1] = padd(fi, it0)
            f = St(cond, {r: (subst(v, m) if v is not None else v) for r, v in g.mem.items()})
            if feasible(f.pc):
                b2, ex2 = step(f)
                outs += ex2
        return outs

    def by_start(self, bad, cells, back, t, outer, pcond):
        """an iteration at which a branch changes if the unsolved locations keep their first lengths and numbers"""
        m = {}
        for loc in bad:
            phi, init = cells[loc]['phi'], cells[loc]['init']
            if phi.k == 'Seq' and init.k == 'Seq':
                phi, init = seqlen(phi), seqlen(init)
            if phi.k == 'P' and init.k == 'P':
                at = phi_atoms(phi) - outer
                if len(at) == 1 and phi is pa(next(iter(at))):
                    m[next(iter(at))] = init
        if not m:
            return None
        rest = {a for c in cells.values() for a in phi_atoms(c['phi'])} - outer - set(m)
        for loc in bad:
            v = raw_get(back.mem.get(loc[0]), loc[1])
            if v is None:
                continue
            tau = threshold(subst(v, m), t, rest, pcond)
            if tau is not None:
                return tau
        return None

    def guess(self, bad, cells, back0, tp, pcond):
        """lengths and numbers that grow in every iteration as in the first one (checked by induction)"""
        q = band(pcond, back0.pc)
        done = False
        for loc in list(bad):
            c = cells[loc]
            phi, init = c['phi'], c['init']
            v = raw_get(back0.mem.get(loc[0]), loc[1])
            if v is None:
                continue
            v = simp(v, q)
            if phi.k == 'Seq' and init.k == 'Seq' and v.k == 'Seq' and phi_atoms(seqlen(phi)) - phi_atoms(seqlen(init)):
                d = psub(seqlen(v), seqlen(init))
                if pconst(d) is not None:
                    k = fresh('k')
                    c['phi'] = seqfn(padd(seqlen(init), pmul(d, tp)), seqat(phi, pa(k)), k)
                    done = True
            elif phi.k == 'P' and init.k == 'P' and v.k == 'P':
                d = psub(v, init)
                if pconst(d) is not None:
                    c['closed'] = padd(init, pmul(d, tp))
                    bad.remove(loc)
                    done = True
        return done

    def whole_slice(self, st, a, b):
        if a is None or b is None or a.k != 'Ptr' or b.k != 'Ptr' or a.a[0] != b.a[0]:
            return None
        if len(b.a[1]) == len(a.a[1]) + 1 and b.a[1][-1][0] == 'sub' and not (a.a[1] and a.a[1][-1][0] == 'sub'):
            v = self.load(st, a)
            if v.k == 'Seq':
                return mk('Ptr', (a.a[0], a.a[1] + (('sub', P0, seqlen(v)),)))
        return None

    def invariants(self, bad, cells, st0, gen_state, iterate):
        """bounds of the unsolved integer locations that the loop keeps"""
        cand = []
        for loc in bad:
            hv, init = cells[loc]['closed'], cells[loc]['init']
            if hv.k == 'P':
                if init.k != 'P':
                    return None
                cand += [(loc, 'nn'), (loc, 'ge1'), (loc, 'le')]

        def cond(c, x):
            loc, w = c
            init = cells[loc]['init']
            return ge0(x) if w == 'nn' else le(P1, x) if w == 'ge1' else le(x, init)
        cand = [c for c in cand if entails(st0.pc, cond(c, cells[c[0]]['init']))]
        for rnd in range(8):
            inv = band(TRUE, *[cond(c, cells[c[0]]['closed']) for c in cand])
            g = gen_state()
            g.pc = band(g.pc, inv)
            back, exits = iterate(g)
            keepc = []
            for c in cand:
                n = raw_get(back.mem.get(c[0][0]), c[0][1]) if back is not None else None
                if back is None or (n is not None and n.k == 'P' and entails(back.pc, cond(c, n))):
                    keepc.append(c)
            if len(keepc) == len(cand):
                break
            cand = keepc
        for loc in bad:
            if cells[loc]['closed'].k == 'P' and (loc, 'nn') not in cand:
                return None
        return inv

    def wr_raw(self, st, root, path, val):
        st.mem[root] = raw_set(st.mem[root], path, val)

    # -------------------------------------------------------------- blocks
    def block(self, fn, fid, b, st):
        blk = fn['blocks'][b]
        self.stack[-1] = (fn['path'], b)
        st = st.copy()
        for s in blk['s']:
            st = self.stmt(fn, fid, s, st)
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'switch':
            return self.switch(fn, fid, t, st)
        if k == 'assert':
            c = self.operand(fn, fid, t[1], st)
            if c.k != 'B':
                c = self.unkb(c)
            bad = bnot(c) if t[2] else c
            s = self.panic(st, bad, t[3], t[6] if len(t) > 6 else '')
            return [(t[5], s)] if s else []
        if k == 'call':
            return self.call_term(fn, fid, b, t, st)
        if k in ('unreach', 'resume'):
            return []
        raise Giveup('terminator ' + k)

    def unkb(self, v):
        """an undetermined boolean"""
        return bat(atom('b', 'unk', v, self.nunk()))

    def nunk(self):
        # two unknown values are never taken to be the same one
        self.unk += 1
        return self.unk

    def switch(self, fn, fid, t, st):
        v = self.operand(fn, fid, t[1], st)
        outs = []
        rest = TRUE
        for val, tgt in t[2]:
            c = self.eq_const(v, int(val))
            s = st.assume(band(rest, c))
            if s:
                outs.append((tgt, s))
            rest = band(rest, bnot(c))
        if t[3] is not None and t[3] >= 0:
            s = st.assume(rest)
            if s:
                outs.append((t[3], s))
        return outs

    def eq_const(self, v, n):
        if v.k == 'B':
            return bnot(v) if n == 0 else v
        if v.k == 'P':
            return eqi(v, pc(n))
        if v.k == 'G':
            r = FALSE
            for l, c in v.a[0]:
                r = bor(r, band(c, self.eq_const(l, n)))
            return r
        return bat(atom('b', 'unk', v, n, self.nunk()))

    # -------------------------------------------------------------- places
    def place(self, fn, fid, p, st):
        """place as a pointer value (Ptr / G of Ptr / U)"""
        cur = ptr((fid, p[0]))
        for e in p[1]:
            k = e[0]
            if k == 'D':
                cur = self.load(st, cur)
                if cur.k == 'E':
                    # reference to an opaque value
                    r = 'op:%d' % cur.id
                    st.mem.setdefault(r, cur)
                    cur = ptr(r)
            elif k == 'F':
                cur = self.sub_ptr(cur, ('f', e[1]))
            elif k == 'V':
                cur = self.sub_ptr(cur, ('v', e[1]))
            elif k == 'I':
                iv = st.mem.get((fid, e[1])) or U('index')
                cur = gmap2(cur, simp(iv, st.pc), lambda a, i: self.sub_ptr(a, ('i', i)) if i.k == 'P' else U('index'))
            elif k == 'C':
                off, mn, fe = e[1], e[2], e[3]
                if fe:
                    s = self.load(st, cur)
                    cur = gmap2(cur, s, lambda a, q: self.sub_ptr(a, ('i', psub(seqlen(q), pc(off)))) if q.k == 'Seq' else U('index'))
                else:
                    cur = self.sub_ptr(cur, ('i', pc(off)))
            elif k == 'S':
                fr, to, fe = e[1], e[2], e[3]
                s = self.load(st, cur)
                cur = gmap2(cur, s, lambda a, q: self.sub_ptr(a, ('sub', pc(fr), psub(psub(seqlen(q), pc(to)), pc(fr)) if fe else pc(to - fr))) if q.k == 'Seq' else U('subslice'))
            else:
                return U('place %s' % k)
        return cur

    def read_place(self, fn, fid, p, st):
        if not p[1]:
            v = st.mem.get((fid, p[0]))
            return v if v is not None else U('uninitialised local %d of %s' % (p[0], fn['path']))
        return self.load(st, self.place(fn, fid, p, st))

    def place_ty(self, fn, p):
        t = fn['locals'][p[0]]
        t = t if isinstance(t, int) else t[0] if isinstance(t, list) else t
        for e in p[1]:
            d = self.ty(t)
            if e[0] == 'D':
                t = d.get('e') if d['k'] in ('ref', 'ptr') else (d['a'][0]['t'] if d['k'] == 'adt' else None)
            elif e[0] == 'F':
                t = e[2]
            elif e[0] in ('I', 'C'):
                t = d.get('e')
            if t is None:
                return None
        return t

    def operand(self, fn, fid, o, st):
        k = o[0]
        if k in ('cp', 'mv'):
            return self.read_place(fn, fid, o[1], st)
        if k == 'k':
            return self.const(o[1], st)
        return FALSE

    def const(self, c, st):
        t = self.ty(c['ty'])
        k = t['k']
        if 'param' in c:
            return self.intparam(c['param'])
        if 'bits' in c:
            b = int(c['bits'])
            if k == 'bool':
                return TRUE if b else FALSE
            if k == 'uint':
                return pc(b)
            if k == 'int':
                n = int(c.get('size', 8)) * 8
                if b >= 1 << (n - 1):
                    b -= 1 << n
                return pc(b)
            if k == 'float':
                return self.float_const(b, int(c['size']))
            if k == 'char':
                return pc(b)
            return U('constant of type ' + t['s'])
        if k == 'fndef':
            return mk('Fn', (c['ty'],))
        if k == 'tuple' and not t['f']:
            return UNIT
        if 'promoted' in c or 'body' in c:
            key = c.get('promoted') or c.get('body')
            r = 'k:' + key
            if r not in st.mem:
                if key not in self.fns:
                    return U('promoted')
                np, ne = len(self.panics), len(self.events)
                v, s = self.run_fn(key, [], St(TRUE, {}), True)
                if v is None:
                    return U('promoted')
                for q, x in s.mem.items():
                    st.mem.setdefault(q, x)
                st.mem[r] = v
            return st.mem[r]
        if 'zst' in c:
            if k == 'adt':
                return agg(t['p'], [])
            if k == 'closure':
                return agg(('closure', t['key']), [])
            return UNIT
        if 'agg' in c:
            fs = [self.const(x, st) for x in c['agg']]
            if k == 'adt' and t.get('enum'):
                return enum(t['p'], [(c.get('vi', 0), TRUE, fs)])
            if k == 'adt':
                return agg(t['p'], fs)
            if k == 'array':
                return lit(fs)
            return agg('tuple', fs)
        if 'ref' in c:
            v = self.const(c['ref'], st)
            r = 'c:%d' % v.id
            st.mem[r] = v
            return ptr(r)
        if 'str' in c:
            return U('str')
        return U('constant')

    FC = None

    def float_const(self, bits, size):
        import struct
        if CFG.ieee:
            return eapp('fc', str(bits), str(size))
        if size == 4:
            f = struct.unpack('<f', struct.pack('<I', bits))[0]
        else:
            f = struct.unpack('<d', struct.pack('<Q', bits))[0]
        return float_elem(f, size)

    # -------------------------------------------------------------- statements
    def stmt(self, fn, fid, s, st):
        if s[0] == '=':
            rv = s[2]
            if rv[0] == 'use' and rv[1][0] == 'cp' and not s[1][1] and self.is_box(fn, s[1][0]):
                # a copied box (drop/deref elaboration): another name of the same allocation
                p = self.place(fn, fid, rv[1][1], st)
                d = self.load(st, p)
                st.mem[(fid, s[1][0])] = d if d.k == 'Agg' and d.a[0] == 'boxalias' else agg('boxalias', [p])
                return st
            v = self.rvalue(fn, fid, rv, st, s[1])
            self.assign(fn, fid, s[1], v, st)
        elif s[0] == 'setd':
            p = self.place(fn, fid, s[1], st)
            self.store(st, p, U('set discriminant'))
        return st

    def is_box(self, fn, l):
        t = fn['locals'][l]
        t = self.ty(t if isinstance(t, int) else t[0])
        return t['k'] == 'adt' and t['p'] == 'alloc::boxed::Box'

    def assign(self, fn, fid, p, v, st):
        if not p[1]:
            st.mem[(fid, p[0])] = v
        else:
            self.store(st, self.place(fn, fid, p, st), v)

    def rvalue(self, fn, fid, rv, st, dst):
        k = rv[0]
        if k == 'use':
            return self.operand(fn, fid, rv[1], st)
        if k in ('ref', 'raw'):
            return self.place(fn, fid, rv[-1], st)
        if k == 'rep':
            v = self.operand(fn, fid, rv[1], st)
            n = self.constp(rv[2])
            return mkseq(n, lambda p: v) if n is not None else U('repeat')
        if k == 'discr':
            v = self.read_place(fn, fid, rv[1], st)
            return self.discr(v)
        if k == 'agg':
            ops = [self.operand(fn, fid, o, st) for o in rv[2]]
            w = rv[1]
            if w == 'tuple':
                return agg('tuple', ops)
            if w == 'array':
                return lit(ops)
            if w == 'closure':
                t = self.ty(rv[3])
                return agg(('closure', t['key']), ops)
            if w == 'adt':
                t = self.ty(rv[3])
                if t.get('enum'):
                    return enum(t['p'], [(rv[4], TRUE, ops)])
                return agg(t['p'], ops)
            return U('aggregate ' + w)
        if k == 'cast':
            return self.cast(fn, fid, rv, st)
        if k == 'bin':
            a = self.operand(fn, fid, rv[2], st)
            b = self.operand(fn, fid, rv[3], st)
            return self.binop(rv[1], a, b, st)
        if k == 'un':
            return self.unop(rv[1], self.operand(fn, fid, rv[2], st), st)
        return U('rvalue ' + str(rv[:2]))

    def discr(self, v, index=False):
        if v.k == 'Enum':
            r = None
            ds = None if index else self.discrs(v.a[0])
            for vi, c, f in v.a[1]:
                d = ds[vi] if ds and vi < len(ds) else vi
                r = pc(d) if r is None else merge(c, pc(d), r)
            if r is None:
                return U('empty enum')
            return r
        if v.k == 'G':
            return gmap(v, lambda l: self.discr(l, index))
        return U('discriminant of %s' % v.k)

    def discrs(self, path):
        if self._discrs is None:
            self._discrs = {'core::cmp::Ordering': [255, 0, 1]}
            for t in self.T:
                if t.get('k') == 'adt' and t.get('enum'):
                    self._discrs.setdefault(t['p'], [int(x[1]) for x in t['v']])
        return self._discrs.get(path)

    def cast(self, fn, fid, rv, st):
        kind, v = rv[1], self.operand(fn, fid, rv[2], st)
        to = self.ty(rv[3])
        if kind == 'BoxDerefTransmute':
            # box.0 pointer read: point at the box's inline contents
            o = rv[2]
            p = o[1]
            el = p[1]
            n = 0
            while el and el[-1][0] == 'F' and n < 2:
                el = el[:-1]
                n += 1
                # stop at the box itself
                bt = self.place_ty(fn, [p[0], el])
                if bt is not None and self.ty(bt)['k'] == 'adt' and self.ty(bt)['p'] == 'alloc::boxed::Box':
                    break
            b = self.place(fn, fid, [p[0], el], st)
            d = self.load(st, b)
            if d.k == 'Agg' and d.a[0] == 'boxalias':
                return d.a[1][0]
            return b
        if kind.startswith('PointerCoercion') or kind == 'PtrToPtr':
            return v
        if kind == 'IntToInt':
            if v.k == 'B':
                return merge(v, P1, P0)
            return gmap(v, lambda l: self.int_cast(l, to))
        if kind == 'IntToFloat':
            def f(l):
                if l.k == 'P':
                    c = pconst(l)
                    return ec(c) if c is not None else ea(atom('e', 'app', 'itof', (l,)))
                return U('int to float')
            return gmap(v, f)
        if kind == 'FloatToFloat':
            if self.mode in ('ring', 'comm'):
                fr = rv[2]
                return v
            return gmap(v, lambda l: eapp('float cast ' + to['s'], l) if l.k == 'E' else U('float cast'))
        if kind == 'FloatToInt':
            return U('float to int')
        if kind == 'Transmute':
            return gmap(v, lambda l: eapp('transmute', l) if l.k == 'E' else U('transmute'))
        return U('cast ' + kind)

    def int_cast(self, l, to):
        if l.k != 'P':
            return U('int cast')
        c = pconst(l)
        w = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32}.get(to['s'])
        if c is not None:
            if to['k'] == 'uint':
                return pc(c % (1 << (w or 64)))
            n = w or 64
            c %= 1 << n
            return pc(c - (1 << n) if c >= 1 << (n - 1) else c)
        if w is None and (to['k'] == 'int' or evid_nn(l)):
            return l
        if w is None and to['k'] == 'uint':
            return l if evid_nn(l) else U('sign cast')
        return U('narrowing cast')

    def unop(self, op, v, st):
        if op == 'Not':
            if v.k == 'B':
                return bnot(v)
            return U('bitwise not')
        if op == 'Neg':
            def f(l):
                if l.k == 'P':
                    return pneg(l)
                if l.k == 'E':
                    return self.eop('neg', l)
                return U('neg')
            return gmap(v, f)
        if op == 'PtrMetadata':
            s = self.load(st, v)
            return gmap(s, lambda l: seqlen(l) if l.k == 'Seq' else U('length of %s' % l.k))
        return U('unary ' + op)

    def binop(self, op, a, b, st):
        if a.k == 'U':
            return agg('tuple', [a, self.unkb(a)]) if op.endswith('WithOverflow') else (self.unkb(a) if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') else a)
        if b.k == 'U':
            return self.binop(op, b, b, st)
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            r = self.binop(base, a, b, st)
            fl = FALSE
            if self.wrap and base != 'Sub' and not self.concrete:
                r = self.wrapped(base, r, st)
            if base == 'Sub' and not self.wrap:
                fl = gmap2b(a, b, lambda x, y: lt(x, y) if x.k == 'P' and y.k == 'P' else FALSE)
            return agg('tuple', [r, fl])
        if a.k == 'B' and b.k == 'B':
            if op in ('BitAnd',):
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('BitXor', 'Ne'):
                return bxor(a, b)
            if op == 'Eq':
                return bnot(bxor(a, b))
            if op == 'Lt':
                return band(bnot(a), b)
            return U('boolean ' + op)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = gmap2b(a, b, lambda x, y: self.cmp(op, x, y))
            return r
        return gmap2(a, b, lambda x, y: self.arith(op, x, y))

    def cmp(self, op, x, y):
        if x.k == 'P' and y.k == 'P':
            return {'Eq': lambda: eqi(x, y), 'Ne': lambda: bnot(eqi(x, y)), 'Lt': lambda: lt(x, y), 'Le': lambda: le(x, y),
                    'Gt': lambda: lt(y, x), 'Ge': lambda: le(y, x)}[op]()
        if x.k == 'E' and y.k == 'E':
            return self.erel(op.lower(), x, y)
        if x.k == 'B' and y.k == 'B':
            return self.binop(op, x, y, None)
        return bat(atom('b', 'unk', agg('tuple', [x, y]), op, self.nunk()))

    def arith(self, op, x, y):
        if x.k == 'P' and y.k == 'P':
            if self.wrap and pconst(x) is not None and pconst(y) is not None and op in ('Add', 'Sub', 'Mul'):
                u, w = int(pconst(x)), int(pconst(y))
                return pc({'Add': u + w, 'Sub': u - w, 'Mul': u * w}[op] % 2 ** 64)
            if op == 'Add' or op == 'AddUnchecked':
                return padd(x, y)
            if op == 'Sub' or op == 'SubUnchecked':
                return psub(x, y)
            if op == 'Mul' or op == 'MulUnchecked':
                return pmul(x, y)
            if op == 'Div':
                return idiv(x, y)
            if op == 'Rem':
                return imod(x, y)
            c = pconst(y)
            if op in ('Shr', 'ShrUnchecked') and c is not None and c < 63:
                return idiv(x, pc(1 << c))
            if op in ('Shl', 'ShlUnchecked') and c is not None and c < 63:
                return pscale(x, 1 << c)
            if op == 'BitAnd' and c is not None and (c & (c + 1)) == 0:
                return imod(x, pc(c + 1))
            cx = pconst(x)
            if c is not None and cx is not None:
                if op == 'BitAnd':
                    return pc(cx & c)
                if op == 'BitOr':
                    return pc(cx | c)
                if op == 'BitXor':
                    return pc(cx ^ c)
            return U('integer ' + op)
        if x.k == 'E' and y.k == 'E':
            o = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem'}.get(op)
            if o:
                return self.eop(o, x, y)
        return U('%s on %s,%s' % (op, x.k, y.k))

    # -------------------------------------------------------------- element operations
    def eop(self, op, *args):
        for a in args:
            if a.k == 'U':
                return a
        if any(a.k == 'G' for a in args):
            i = next(i for i, a in enumerate(args) if a.k == 'G')
            return gmap(args[i], lambda l: self.eop(op, *(args[:i] + (l,) + args[i + 1:])))
        if self.mode == 'free':
            return eapp(op, *args)
        if any(a.k != 'E' for a in args):
            return eapp(op, *args)
        if op == 'add':
            return eadd(*args)
        if op == 'sub':
            return esub(*args)
        if op == 'mul':
            return emul(*args)
        if op == 'neg':
            return eneg(*args)
        if op == 'zero':
            return E0
        if op == 'one':
            return E1
        if op == 'div':
            return emul(args[0], einv(args[1]))
        return eapp(op, *args)

    def erel(self, op, a, b):
        if a.k == 'G' or b.k == 'G':
            return gmap2b(a, b, lambda x, y: self.erel(op, x, y))
        if a.k == 'P' and b.k == 'P':
            return self.cmp(op.capitalize(), a, b)
        if a.k == 'U' or b.k == 'U':
            return self.unkb(a if a.k == 'U' else b)
        if op == 'ne':
            return bnot(self.erel('eq', a, b))
        if op == 'gt':
            return self.erel('lt', b, a)
        if op == 'ge':
            return self.erel('le', b, a)
        return relb(op, a, b)

    # -------------------------------------------------------------- calls
    def call_term(self, fn, fid, b, t, st):
        fo, args, dst, tgt = t[1], t[2], t[3], t[4]
        span = t[5] if len(t) > 5 else ''
        av = [self.operand(fn, fid, a, st) for a in args]
        self.counts['calls'] += 1
        dty = self.place_ty(fn, dst)
        if fo[0] == 'k' and self.ty(fo[1]['ty'])['k'] == 'fndef':
            v, s = self.call(self.ty(fo[1]['ty'])['c'], av, st, dty, span)
        else:
            f = self.operand(fn, fid, fo, st)
            v, s = self.call_value(f, av, st, dty, span)
        if s is None or tgt is None or tgt < 0:
            return []
        s = s.copy()
        self.assign(fn, fid, dst, v, s)
        return [(tgt, s)]

    def call(self, c, args, st, dty, span):
        import models
        return models.dispatch(self, c, args, st, dty, span)

    def call_value(self, f, args, st, dty=None, span=''):
        """call a function value (closure, fn item, opaque F) with untupled args"""
        import models
        env = f
        d = self.deref(st, f)
        if d.k == 'G':
            # guarded callee
            outs = []
            for l, c in d.a[0]:
                s = st.assume(c)
                if s is None:
                    continue
                v, s2 = self.call_value(l, args, s, dty, span)
                if s2 is not None:
                    r = '$ret'
                    s2.mem[r] = v
                    outs.append(s2)
            m = merge_states(outs)
            if m is None:
                return None, None
            v = m.mem.pop('$ret')
            return v, m
        if d.k == 'Fn':
            return self.call(self.ty(d.a[0])['c'], args, st, dty, span)
        if d.k == 'Agg' and type(d.a[0]) is tuple and d.a[0][0] == 'closure':
            key = d.a[0][1]
            fnb = self.fns.get(key)
            if fnb is None:
                return U('closure body'), st
            l1 = fnb['locals'][1]
            l1 = l1 if isinstance(l1, int) else l1[0]
            byref = self.ty(l1)['k'] == 'ref'
            if byref:
                p = f
                # the innermost pointer to the closure
                while p.k == 'Ptr' and self.load(st, p).k == 'Ptr':
                    p = self.load(st, p)
                if p.k != 'Ptr':
                    st = st.copy()
                    p = ptr(self.newroot(st, d))
                a0 = p
            else:
                a0 = d
            return self.run_fn(key, [a0] + list(args), st)
        if d.k == 'Agg' and type(d.a[0]) is tuple and d.a[0][0] == 'pyfn':
            return d.a[0][1](self, args, st)
        if d.k == 'E':
            return models.opaque_call(self, d, args, st, dty)
        return U('call of %s' % d.k), st


def CFG_OPAQUE(d):
    return False


def float_elem(f, size=8):
    import math
    if f != f or f in (float('inf'), float('-inf')):
        return eapp('fconst', str(f))
    known = [(math.pi, 'pi', 1), (math.e, 'euler', 1), (2 * math.pi, 'pi', 2), (math.pi / 2, 'pi', Fraction(1, 2)),
             (math.pi / 4, 'pi', Fraction(1, 4)), (math.pi / 3, 'pi', Fraction(1, 3)), (1 / math.pi, 'ipi', 1),
             (math.sqrt(2), 'sqrt2', 1), (math.sqrt(0.5), 'sqrt2', Fraction(1, 2)), (math.log(2), 'ln2', 1), (math.log(10), 'ln10', 1)]
    import struct
    for v, n, c in known:
        w = struct.unpack('<f', struct.pack('<f', v))[0] if size == 4 else v
        if w == f:
            return escale(eapp(n), c)
        if w == -f:
            return escale(eapp(n), -c)
    if size == 4:
        # shortest decimal that reads back as this f32
        for p in range(1, 12):
            s = '%.*g' % (p, f)
            if struct.unpack('<f', struct.pack('<f', float(s)))[0] == f:
                return ec(Fraction(s))
        return ec(Fraction(f))
    return ec(Fraction(repr(f)))


def gmap2b(a, b, f):
    r = FALSE
    for x, c in gcases(a):
        for y, d in gcases(b):
            cd = band(c, d)
            if cd is not FALSE:
                r = bor(r, band(cd, f(x, y)))
    return r


def norm_path(p):
    out = []
    for e in p:
        if e[0] == 'i' and out and out[-1][0] == 'sub':
            s = out.pop()
            out.append(('i', padd(e[1], s[1])))
        elif e[0] == 'sub' and out and out[-1][0] == 'sub':
            s = out.pop()
            out.append(('sub', padd(e[1], s[1]), e[2]))
        else:
            out.append(e)
    return tuple(out)


# ------------------------------------------------------------------ loop helpers
def ptr_roots(v):
    out = set()
    seen = set()

    def go(x):
        if not isinstance(x, N) or x.id in seen:
            return
        seen.add(x.id)
        if x.k == 'Ptr':
            out.add(x.a[0])
            return
        if x.k in ('P', 'E', 'B', 'atom'):
            return
        for y in x.a:
            if isinstance(y, N):
                go(y)
            elif type(y) is tuple:
                for z in y:
                    if isinstance(z, N):
                        go(z)
                    elif type(z) is tuple:
                        for w in z:
                            if isinstance(w, N):
                                go(w)
                            elif type(w) is tuple:
                                for u in w:
                                    if isinstance(u, N):
                                        go(u)
    go(v)
    return out


def difflocs(a, b, path, emit):
    if a is b or b is None or a is None:
        return
    if a.k == 'Agg' and b.k == 'Agg' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            difflocs(x, y, path + (('f', i),), emit)
        return
    if a.k == 'Seq' and b.k == 'Seq' and a.a[1] == 'lit' and b.a[1] == 'lit' and a.a[0] is b.a[0]:
        for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
            difflocs(x, y, path + (('i', pc(i)),), emit)
        return
    if a.k == 'Enum' and b.k == 'Enum' and a.a[0] == b.a[0] and len(a.a[1]) == 1 and len(b.a[1]) == 1 and a.a[1][0][0] == b.a[1][0][0]:
        va, vb = a.a[1][0], b.a[1][0]
        for i, (x, y) in enumerate(zip(va[2], vb[2])):
            difflocs(x, y, path + (('e', i),), emit)
        return
    if a.k == 'Ptr' and b.k == 'Ptr' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]) and all(
            x[0] == y[0] and len(x) == len(y) for x, y in zip(a.a[1], b.a[1])):
        ok = True
        for x, y in zip(a.a[1], b.a[1]):
            for u, v in zip(x, y):
                if u != v and not (isinstance(u, N) and isinstance(v, N) and u.k == 'P' and v.k == 'P'):
                    ok = False
        if ok:
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                for j, (u, v) in enumerate(zip(x, y)):
                    if u is not v and u != v:
                        emit(path + (('p', i, j),), u, v)
            return
    emit(path, a, b)


def raw_get(v, path):
    for e in path:
        if v is None:
            return None
        if e[0] == 'f':
            v = v.a[1][e[1]] if v.k == 'Agg' else None
        elif e[0] == 'i':
            v = v.a[2][pconst(e[1])] if v.k == 'Seq' and v.a[1] == 'lit' else None
        elif e[0] == 'e':
            v = v.a[1][0][2][e[1]] if v.k == 'Enum' and len(v.a[1]) == 1 else None
        elif e[0] == 'p':
            v = v.a[1][e[1]][e[2]] if v.k == 'Ptr' and len(v.a[1]) > e[1] else None
    return v


def raw_set(v, path, val):
    if not path:
        return val
    e = path[0]
    if e[0] == 'f':
        fs = list(v.a[1])
        fs[e[1]] = raw_set(fs[e[1]], path[1:], val)
        return agg(v.a[0], fs)
    if e[0] == 'i':
        fs = list(v.a[2])
        i = pconst(e[1])
        fs[i] = raw_set(fs[i], path[1:], val)
        return lit(fs)
    if e[0] == 'e':
        vi, c, f = v.a[1][0]
        fs = list(f)
        fs[e[1]] = raw_set(fs[e[1]], path[1:], val)
        return enum(v.a[0], [(vi, c, fs)])
    if e[0] == 'p':
        p = [list(x) for x in v.a[1]]
        p[e[1]][e[2]] = val
        return ptr(v.a[0], tuple(tuple(x) for x in p))
    raise Giveup('raw_set')


_pn = [0]


def placeholder(init, nxt, pcond, tp=None):
    """a fresh value of the shape of init; with tp: the value in iteration tp"""
    _pn[0] += 1
    if tp is not None:
        return _ph('~hv%d' % _pn[0], init, nxt, tp, pcond, True)
    return _ph('phi%d' % _pn[0], init, nxt, (), pcond)


def _ph(name, init, nxt, idx, pcond, hv=False):
    i = init
    if i.k == 'G':
        i = i.a[0][0][0]
    if i.k == 'U' and nxt is not None:
        return None
    if i.k == 'P':
        nn = all(evid_nn(l) or entails(pcond, ge0(l)) for l, c in gcases(init) if l.k == 'P')
        if hv:
            return pa(atom('i', 'iapp', name, idx))
        if idx:
            return pa(leafatom('i', 'phi', name, idx, nn))
        return pa(leafatom('i', 'phi', name, (), nn))
    if i.k == 'E':
        return ea(atom('e', 'in', name, idx) if hv else leafatom('e', 'phi', name, idx))
    if i.k == 'B':
        return bat(atom('b', 'in', name, idx) if hv else leafatom('b', 'phi', name, idx))
    if i.k == 'Agg':
        fs = []
        for j, f in enumerate(i.a[1]):
            if f is None:
                fs.append(None)
                continue
            g = nxt.a[1][j] if nxt is not None and nxt.k == 'Agg' and len(nxt.a[1]) > j else None
            p = _ph('%s.%d' % (name, j), f, g, idx, pcond, hv)
            if p is None:
                return None
            fs.append(p)
        return agg(i.a[0], fs)
    if i.k == 'Seq':
        n0 = seqlen(i)
        ms = [l for l, c in gcases(nxt)] if nxt is not None else []
        fixed = bool(ms) and init.k != 'G' and all(m.k == 'Seq' and seqlen(m) is n0 for m in ms)
        m = ms[0] if ms else None
        k = fresh('k')
        ex = None
        if pconst(n0) != 0:
            ex = seqat(i, pa(k))
        if (ex is None or ex.k == 'U') and m is not None and m.k == 'Seq':
            ex = seqat(m, P0 if pconst(seqlen(m)) == 1 else pa(k))
        if ex is None:
            return None
        n = n0 if fixed else pa(atom('i', 'iapp', name + '.len', idx) if hv else leafatom('i', 'phi', name + '.len', idx, True))
        en = None
        if fixed:
            en = gmap(nxt, lambda l: seqat(l, pa(k)))
        body = _ph(name + '[]', ex, en, idx + (pa(k),), pcond, hv)
        if body is None:
            return None
        return seqfn(n, body, k)
    if i.k == 'Ptr':
        return None
    return None


def phi_atoms(v):
    """placeholder names occurring in v"""
    out = set()
    seen = set()

    def go(x):
        if type(x) is tuple:
            for y in x:
                go(y)
            return
        if not isinstance(x, N) or x.id in seen:
            return
        seen.add(x.id)
        if x.k == 'atom' and x.a[1] == 'phi':
            out.add(x.a[2])
        for y in x.a:
            if isinstance(y, N) or type(y) is tuple:
                go(y)
    go(v)
    return out


def mentions(v, names):
    if v is None:
        return False
    for at in v.deps:
        if at.a[1] == 'phi' and at.a[2] in names:
            return True
    # indexed placeholders under binders
    if not names:
        return False
    return bool(phi_atoms(v) & names)


def havoc_value(a, b):
    if a is None:
        return None
    if a.k == 'Agg' and (b is None or (b.k == 'Agg' and a.a[0] == b.a[0] and len(b.a[1]) == len(a.a[1]))):
        return agg(a.a[0], [x if (b is not None and x is b.a[1][i]) else havoc_value(x, b.a[1][i] if b is not None else None) for i, x in enumerate(a.a[1])])
    if a.k == 'U':
        return a
    if a.k == 'P':
        if any(at.a[1] == 'sym' and at.a[2].startswith('havoc') for m, c in a.a for at in m):
            return a
        return psym('havoc~%d' % terms._ctr[0])
    if a.k == 'E' or a.k == 'B' or a.k == 'G' or a.k == 'Seq' or a.k == 'Enum' or a.k == 'Ptr':
        return U('changed by an unsolved loop')
    return U('changed by an unsolved loop')


def threshold(v, t, phis, pcond):
    """an iteration number at which a branch on the iteration number changes"""
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if type(x) is tuple:
            todo += list(x)
            continue
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.k == 'atom' and x.a[1] in ('ge0', 'eq0') and t in x.deps:
            l = lin_in(x.a[2], t)
            if l is not None and abs(l[0]) == 1 and not (phi_atoms(l[1]) & phis) and not any(
                    a.a[1] == 'bound' for a in l[1].deps) and t not in l[1].deps:
                c, r = l
                if x.a[1] == 'eq0':
                    tau = pneg(r) if c == 1 else r
                    tau = tau if pconst(tau) != 0 else P1
                else:
                    # c=1: t + r >= 0 from t = -r on;  c=-1: r - t >= 0 up to t = r
                    tau = pneg(r) if c == 1 else padd(r, P1)
                if feasible(band(pcond, lt(P0, tau))):
                    return tau
        for y in x.a:
            if isinstance(y, N) or type(y) is tuple:
                todo.append(y)
    return None


def trip(cont, t, pcond):
    """cont(t): condition to continue at iteration t.  Returns (T, S): continues iff t < T and S(t);
    T None if unbounded."""
    Ts = []
    rest = cont
    for at, val in sorted(must(cont), key=lambda l: l[0].id):
        if t not in at.deps:
            continue
        if at.a[1] == 'ge0':
            p = at.a[2] if val else padd(pneg(at.a[2]), P1, -1)
            l = lin_in(p, t)
            if l is None:
                continue
            c, r = l
            if c >= 0:
                # t >= something: must hold from the start
                continue
            n = padd(idiv(r, pc(-c)) if c != -1 else r, P1)
            if not entails(pcond, ge0(n)):
                n = imax(P0, n)
            Ts.append(n)
            rest = cofactor(rest, at, val)
        elif at.a[1] == 'eq0' and not val:
            l = lin_in(at.a[2], t)
            if l is None or abs(l[0]) != 1:
                continue
            c, r = l
            n = pneg(r) if c == 1 else r
            if entails(pcond, ge0(n)):
                Ts.append(n)
                rest = cofactor(rest, at, val)
    if not Ts:
        # one of several bounds: at most up to the greatest of them
        T = None
        for at in sorted(support(cont), key=lambda x: x.id):
            if t in at.deps and at.a[1] == 'ge0':
                for p in (at.a[2], padd(pneg(at.a[2]), P1, -1)):
                    l = lin_in(p, t)
                    if l is not None and l[0] == -1 and t not in l[1].deps and not has_unk(l[1]):
                        n = padd(l[1], P1)
                        T = n if T is None else imax(T, n)
        if T is None or feasible(band(pcond, cont, le(T, pa(t)))):
            return None, rest
        T = simp(imax(P0, T), pcond)
        return T, simpb(rest, band(pcond, lt(pa(t), T)))
    T = Ts[0]
    for x in Ts[1:]:
        T = imin(T, x)
    T = simp(T, pcond)
    # residual under the range
    rest = simpb(rest, band(pcond, lt(pa(t), T)))
    return T, rest


def _sumto(t, g):
    """sum over s < t of g(s); g a value depending on atom t"""
    s = fresh('s')
    return mksum(s, lt(pa(s), pa(t)), subst(g, {t: pa(s)}))


def solve_cell(c, N_, t, own, others, pcond, I):
    phi, init = c['phi'], c['init']
    if N_.k == 'U':
        return None
    # lengths first
    if phi.k == 'Seq':
        return solve_seq(c, N_, t, own, others, pcond, I)
    if mentions(N_, others):
        return None
    if phi.k == 'Agg':
        if N_.k != 'Agg':
            return None
        fs = []
        for p, n, i in zip(phi.a[1], N_.a[1], init.a[1] if init.k == 'Agg' else [None] * 99):
            if i is None or n is None:
                return None
            s = solve_leaf(p, n, i, t, own, pcond) if p.k not in ('Seq', 'Agg') else solve_cell({'phi': p, 'init': i}, n, t, own, others, pcond, I)
            if p.k in ('Seq', 'Agg'):
                if s is None or s[0] != 'closed':
                    return None
                s = s[1]
            if s is None:
                return None
            fs.append(s)
        return 'closed', agg(phi.a[0], fs)
    s = solve_leaf(phi, N_, init, t, own, pcond)
    return None if s is None else ('closed', s)


def saturating(phi, N_, init, t, own, pcond):
    """x' = x + 1 while x < B, x(0) = init: the lesser of init + t and B"""
    if N_.k != 'G' or init.k != 'P' or len(N_.a[0]) != 2:
        return None
    up = [c for l, c in N_.a[0] if l is padd(phi, P1)]
    if len(up) != 1 or not any(l is phi for l, c in N_.a[0]):
        return None
    sup = [at for at in support(up[0]) if at.a[1] == 'ge0' and mentions(at, own)]
    if len(sup) != 1 or len(support(up[0])) != 1:
        return None
    for val, q in ((True, sup[0].a[2]), (False, padd(pneg(sup[0].a[2]), P1, -1))):
        B = padd(padd(q, phi), P1)
        if not mentions(B, own) and t not in B.deps and up[0] is (bat(sup[0]) if val else bnot(bat(sup[0]))):
            top = B if entails(pcond, le(init, B)) else imax(init, B)
            return simp(imin(padd(init, pa(t)), top), pcond)
    return None


def solve_leaf(phi, N_, init, t, own, pcond):
    """closed form at t of x' = N(x, t), x(0) = init"""
    tp = pa(t)
    if N_ is phi:
        return init
    if not mentions(N_, own):
        # assigned afresh in every iteration
        if t not in N_.deps:
            return merge(eqi(tp, P0), init, N_)
        return merge(eqi(tp, P0), init, subst(N_, {t: psub(tp, P1)}))
    if phi.k == 'P':
        d = gmap(N_, lambda l: psub(l, phi) if l.k == 'P' else U('int'))
        if d.k == 'P' and not mentions(d, own):
            if t not in d.deps:
                return gmap(init, lambda l: padd(l, pmul(d, tp)))
            l = lin_in(d, t)
            if l is not None:
                a, b = l
                if a % 2 == 0:
                    return gmap(init, lambda x: padd(padd(x, pmul(b, tp)), pscale(pmul(tp, psub(tp, P1)), a // 2)))
        r = saturating(phi, N_, init, t, own, pcond)
        return r if r is not None else touched(phi, N_, init, t, own, pcond)
    if phi.k == 'B':
        if N_.k != 'B':
            return None
        v = phi.a[0]
        hi, lo = cofactor(N_, v, True), cofactor(N_, v, False)
        if mentions(hi, own) or mentions(lo, own):
            return None
        s = fresh('s')
        if lo is FALSE:
            return band(init, forall(s, bimp(lt(pa(s), tp), subst(hi, {t: pa(s)}))))
        if hi is TRUE:
            return bor(init, exists(s, band(lt(pa(s), tp), subst(lo, {t: pa(s)}))))
        return None
    if phi.k == 'E':
        g = gsub(N_, phi)
        if not mentions(g, own) and not any(l.k == 'U' for l, _ in gcases(g)):
            return gadd(init, _sumto(t, g))
        # N = x*phi or phi*x (+ g)
        if N_.k == 'E' and init.k in ('E', 'G'):
            pat = phi.a[0][0][0]
            A, Bm, rest = {}, {}, {}
            form = None
            ok = True
            for w, cc in N_.a:
                n = w.count(pat)
                if n == 0:
                    if mentions(mk('E', ((w, cc),)), own):
                        ok = False
                    rest[w] = cc
                elif n == 1:
                    i = w.index(pat)
                    pre, suf = w[:i], w[i + 1:]
                    if any(mentions(ea(x), own) for x in pre + suf):
                        ok = False
                    if CFG.comm:
                        pre, suf = (), pre + suf
                    if pre and suf:
                        ok = False
                    A[pre] = A.get(pre, 0) + cc if not suf else A.get(pre, 0)
                    Bm[suf] = Bm.get(suf, 0) + cc if not pre else Bm.get(suf, 0)
                    f = 'L' if pre else 'R' if suf else None
                    if f and form and f != form:
                        ok = False
                    form = form or f
                else:
                    ok = False
            if ok and form:
                x = terms._emk(A if form == 'L' else Bm)
                if t not in x.deps:
                    s = fresh('s')
                    gs = subst(terms._emk(rest), {t: pa(s)})
                    e = psub(psub(tp, P1), pa(s))
                    pw, ps = epow(x, tp), epow(x, e)
                    if form == 'R':
                        return gadd(gmul(init, pw), mksum(s, lt(pa(s), tp), emul(gs, ps)))
                    return gadd(gmul(pw, init), mksum(s, lt(pa(s), tp), emul(ps, gs)))
        return touched(phi, N_, init, t, own, pcond)
    return None


def touched(phi, N_, init, t, own, pcond):
    """N = phi except in the single iteration t = tau: N = h(phi, tau)"""
    if N_.k != 'G':
        return None
    keep = FALSE
    tp = pa(t)
    res = init
    leaves = []
    for l, c in N_.a[0]:
        if l is phi:
            keep = bor(keep, c)
        else:
            leaves.append((l, c))
    if keep is FALSE:
        return None
    sels = []
    for l, c in leaves:
        tau = terms._solve_eq(c, t)
        if tau is None or mentions(c, own):
            return None
        sels.append((tau, l, c))
    if len({s[0] for s in sels}) != 1:
        return None
    tau = sels[0][0]
    m = {t: tau}
    ph = phi_atom_list(phi)
    if len(ph) != 1:
        return None
    for tau, l, c in sels:
        cond = band(subst(c, m), ge0(tau), lt(tau, tp))
        v = subst(l, m)
        if mentions(v, own):
            if init.k == 'G' and False:
                return None
            v = subst(v, {ph[0]: init})
            if mentions(v, own):
                return None
        res = merge(cond, v, res)
    return res


def align(e, p, t, q):
    """placeholders read at positions equal, under the leaf's condition, to the position of p become p;
    under a condition t = tau, tau is written for t"""
    pl = phi_atom_list(p)
    cs = []
    ch = False
    for l, c in gcases(e):
        l0 = l
        if l is not p and t in l.deps:
            tau = terms._solve_eq(c, t)
            if tau is not None:
                l = subst(l, {t: tau})
        if len(pl) == 1 and l is not p:
            x = pl[0]
            m = {}
            for at in l.deps:
                if at is not x and at.a[1] == 'phi' and at.a[2] == x.a[2] and len(at.a[3]) == len(x.a[3]):
                    if all(i is j or entails(band(q, c), eqi(i, j)) for i, j in zip(at.a[3], x.a[3])):
                        m[at] = p
            if m:
                l = subst(l, m)
        ch = ch or l is not l0
        cs.append((l, c))
    if not ch:
        return e
    r = cs[0][0]
    for l, c in cs[1:]:
        r = merge(c, l, r)
    return r


def phi_atom_list(phi):
    if phi.k == 'E':
        return list(phi.a[0][0])
    if phi.k == 'P':
        return list(phi.a[0][0])
    return []


def solve_seq(c, N_, t, own, others, pcond, I):
    phi, init = c['phi'], c['init']
    tp = pa(t)
    if N_.k != 'Seq' or init.k != 'Seq':
        return None
    Lp, Ln, L0 = seqlen(phi), seqlen(N_), seqlen(init)
    lname = {n for n in phi_atoms(Lp)} & own
    if lname:
        d = psub(Ln, Lp)
        if mentions(d, others) or mentions(d, own) or t in d.deps:
            return None
        # replace the placeholder by one of known length
        L = padd(L0, pmul(d, tp))
        k = fresh('k')
        return 'partial', seqfn(L, seqat(phi, pa(k)), k)
    d = psub(Ln, Lp)
    if d.deps and (t in d.deps or mentions(d, others)):
        return None
    k = fresh('k')
    kp = pa(k)
    if d is P0:
        q = band(pcond, lt(kp, Ln))
        e = simp(seqat(N_, kp), q)
        p = seqat(phi, kp)
        i = simp(seqat(init, kp), q)
        if mentions(e, others):
            return None
        # no reads of other positions of the sequence itself
        s = solve_struct(p, e, i, t, own, q)
        if s is None:
            s = solve_writes(e, p, i, (phi, init), kp, t, own, q)
        if s is None:
            return None
        return 'closed', seqfn(L0, s, k)
    # growing by d per iteration: old part unchanged, new part g(t, j)
    q = band(pcond, lt(kp, Lp))
    e = simp(seqat(N_, kp), q)
    if e is not seqat(phi, kp) and eqv(e, seqat(phi, kp), q) is not True:
        return None
    j = fresh('j')
    jp = pa(j)
    q = band(pcond, lt(jp, d))
    g = simp(seqat(N_, padd(Lp, jp)) if pconst(d) != 1 else seqat(N_, Lp), q)
    if pconst(L0) == 0 or True:
        if mentions(g, others) or mentions(g, own):
            return None
    if pconst(d) == 1:
        new = subst(g, {t: psub(kp, L0)})
    else:
        new = subst(g, {t: idiv(psub(kp, L0), d), j: imod(psub(kp, L0), d)})
    if pconst(L0) == 0:
        body = new
    else:
        body = merge(lt(kp, L0), seqat(init, kp), new)
    return 'closed', seqfn(padd(L0, pmul(d, tp)), body, k)


def solve_writes(e, p, i, whole, kp, t, own, q):
    """e at position kp keeps p except at a position that moves with t, or at a fixed one:
    a guess (the values written are read before they are overwritten), checked by induction"""
    k = next(iter(kp.deps))
    tp = pa(t)
    m = {}
    if not back_to_init(e, whole, own, m):
        return None

    def old(v):
        return subst(v, m)

    def at(v, tau, act):
        """written in iteration tau"""
        return subst(old(v), {t: tau})
    ws = []

    def collect(e, p, i, q, put):
        """put(value) wraps a leaf value"""
        for l, c in gcases(e):
            if l is p:
                continue
            qc = band(q, c)
            if not feasible(qc):
                continue
            if l.k == 'Seq' and p.k == 'Seq' and seqlen(l) is seqlen(p):
                # per element of a row: written at one position of the outer sequence
                j = fresh('k')
                if eqv(seqat(l, pa(j)), seqat(p, pa(j)), band(qc, lt(pa(j), seqlen(p)))) is True:
                    continue
                if l.a[1] != 'lit':
                    b = seqat(l, pa(j))
                    if any(x is seqat(p, pa(j)) for x, _ in gcases(b)):
                        return False
            ws.append((l, c, qc))
        return True
    flat = push_cases(e, p)
    if flat is None or not collect(flat, p, i, q, None):
        return None
    if not ws:
        return None
    res = i
    moving, fixed = [], []
    for l, c, qc in ws:
        cand = [w for w in equal.pins((), qc, k) if entails(qc, eqi(kp, w))]
        w = next((w for w in cand if t in w.deps and lin_in(w, t) is not None and lin_in(w, t)[0] == 1), None)
        if w is not None:
            r = psub(w, tp)
            moving.append((l, c, r))
            continue
        w = next((w for w in cand if t not in w.deps), None)
        if w is None:
            return None
        fixed.append((l, c, w))
    for l, c, w in fixed:
        c2 = subst(old(c), {t: P0})
        res = merge(band(lt(P0, tp), eqi(kp, w), c2), subst(old(l), {t: P0}), res)
    for l, c, r in moving:
        s = psub(kp, r)
        res = merge(band(le(P0, s), lt(s, tp), subst(old(c), {t: s})), subst(old(l), {t: s}), res)
    return res


def push_cases(e, p):
    """rows with cases per component that do not depend on the component: cases of rows"""
    if p.k != 'Seq':
        return e
    d = {}
    for l, c in gcases(e):
        if l.k != 'Seq':
            return None
        j = fresh('k')
        b = seqat(l, pa(j)) if pconst(seqlen(l)) != 0 else None
        if b is not None and b.k == 'G' and all(j not in cc.deps for _, cc in b.a[0]):
            for x, cc in b.a[0]:
                y = p if x is seqat(p, pa(j)) and seqlen(l) is seqlen(p) else seqfn(seqlen(l), x, j)
                d[y] = bor(d.get(y, FALSE), band(c, cc))
        else:
            d[l] = bor(d.get(l, FALSE), c)
    if not d:
        return None
    return mkg(d) if len(d) > 1 else next(iter(d))


def back_to_init(v, whole, own, m):
    """m: every placeholder of the sequence itself read in v -> the initial value there"""
    phi, init = whole
    for at in v.deps:
        if at.a[1] == 'phi' and at.a[2] in own:
            x, y = init, phi
            for i in at.a[3]:
                if x.k == 'G' or x.k != 'Seq' or y.k != 'Seq':
                    return False
                x, y = seqat(x, i), seqat(y, i)
            if y is not (ea(at) if at.a[0] == 'e' else pa(at) if at.a[0] == 'i' else bat(at)):
                return False
            m[at] = x
    return True


def solve_struct(p, e, i, t, own, q):
    if e is p:
        return i
    if p.k == 'Agg':
        if e.k != 'Agg' or i.k != 'Agg':
            return None
        fs = []
        for a, b, x in zip(p.a[1], e.a[1], i.a[1]):
            s = solve_struct(a, b, x, t, own, q)
            if s is None:
                return None
            fs.append(s)
        return agg(p.a[0], fs)
    if p.k == 'Seq':
        if e.k != 'Seq' or i.k != 'Seq' or seqlen(e) is not seqlen(p):
            return None
        k = fresh('k')
        q2 = band(q, lt(pa(k), seqlen(p)))
        s = solve_struct(seqat(p, pa(k)), simp(seqat(e, pa(k)), q2), simp(seqat(i, pa(k)), q2), t, own, q2)
        return None if s is None else seqfn(seqlen(p), s, k)
    # only reads at the same position are allowed: every own placeholder in e must be p's atom
    pl = phi_atom_list(p)
    e = align(e, p, t, q)
    for at in e.deps:
        if at.a[1] == 'phi' and at.a[2] in own and at not in pl:
            return None
    ph = phi_atoms(e) & own
    if ph and not pl:
        return None
    names = {a.a[2] for a in pl}
    if not ph <= names:
        return None
    return solve_leaf(p, e, i, t, own & names, q)
