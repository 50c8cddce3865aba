"""Decides properties of the current tree: obligations on witness roots.

An obligation names a client function (a root of the witness crate), a premise
on its inputs and the value it has to return, to leave behind a `&mut`
argument, or that it must / must not panic.  The abstract interpreter computes
the function's summary for all inputs and all sizes.  An obligation is

  proved     the summary equals the expectation under the premise,
  violated   the summary differs, confirmed by an input on which the two
             summaries disagree (or by constant propagation of small sizes),
  undecided  neither could be shown (never reported as a violation).
"""
import json, os, sys, time, itertools, traceback
sys.setrecursionlimit(20000)
from terms import *
import terms
from logic import *
import equal
from equal import eqv, ground
import interp as IP
import models
import run as RUN
import evalt
import build
import layout

PROVED, VIOLATED, UNDEC = 'proved', 'violated', 'undecided'


class Ob:
    def __init__(self, root, exp=None, at='val', pre=None, mode='ring', ord=None, panic='none', alias=None, grid=None, note='',
                 key=None, sizes=None, custom=None, after=None, keep=(), reads=False):
        self.reads = reads
        self.keep = keep
        self.root, self.exp, self.at, self.pre, self.mode, self.ord = root, exp, at, pre, mode, ord
        self.panic, self.alias, self.grid, self.note = panic, alias or {}, grid, note
        self.sizes = sizes or {}
        self.custom = custom
        self.after = after
        self.id = key or (root if at == 'val' else '%s:*%s' % (root, at)) + (':' + panic if panic != 'none' else '')

    def dom(self):
        return {'ring': 'nc', 'comm': 'real', 'free': 'free', 'ieee': 'ieee32' if '32' in self.root else 'ieee64'}[self.mode]


class X:
    """names of the inputs, for writing expectations"""

    def __init__(self, I, W):
        self.I, self.W = I, W

    def n(self, name):
        return self.I.intparam(name)

    def e(self, name, *idx):
        return ein(name, *[self.p(i) for i in idx])

    def p(self, i):
        return pc(i) if isinstance(i, int) else i

    def app(self, f, *args):
        return models.gfun(self.I, f, list(args)) if f in models.FLN or f == 'conj' else gapp(f, tuple(args))

    def fn(self, f, *args):
        """the caller's function f"""
        return eapp(ein(f), *[self.p(i) for i in args])

    def len(self, e):
        return self.n('len(%s)' % e)

    def entry(self, e, *ix):
        return eapp('entry', opq(e), *[self.p(i) for i in ix])

    def dm(self, m, r, c):
        """the entry of a dynamic matrix in the library's storage order"""
        return self.e(m + '.data', self.layout().offset(self.n(m + '.num_rows'), self.n(m + '.num_cols'), self.p(r), self.p(c)))

    def seq(self, n, f):
        return mkseq(self.p(n), f)

    def sum(self, n, f):
        k = fresh('k')
        return mksum(k, lt(pa(k), self.p(n)), f(pa(k)))

    def sumc(self, cond, f):
        k = fresh('k')
        return mksum(k, cond(pa(k)), f(pa(k)))

    def all(self, cond):
        k = fresh('k')
        return forall(k, cond(pa(k)))

    def cplx(self, re, im):
        i = self.fieldorder('Complex', ['re', 'im'])
        v = [re, im]
        return agg('partial', [v[j] for j in i])

    def wrap(self, v):
        return agg('partial', [v])

    def matrix(self, rows, cols, f):
        """a dynamic matrix with entries f(r, c), in the order in which the library stores them"""
        return self.layout().matrix(rows, cols, f)

    def layout(self):
        L = self.W.get('layout') or getattr(self.I, 'matlayout', None)
        if L is None:
            for t in self.W['types']:
                if t.get('k') == 'adt' and t.get('local') and t['p'].split('::')[-1] == 'DMatrix' and t.get('v'):
                    L = layout.default(self.I, t['p'], t['v'][0][2])
                    break
        if L is None or L.rows is None or L.cols is None:
            raise IP.Giveup('representation of DMatrix')
        return L

    def fieldorder(self, name, want):
        for t in self.W['types']:
            if t.get('k') == 'adt' and t.get('local') and t['p'].split('::')[-1] == name and t.get('v'):
                fs = [n for n, _ in t['v'][0][2]]
                if sorted(fs) == sorted(want):
                    return [want.index(n) for n in fs]
                raise IP.Giveup('fields of %s are %s' % (name, fs))
        return list(range(len(want)))


def opq(e):
    return models.opaque(e) if hasattr(models, 'opaque') else ein(e)


# ------------------------------------------------------------------ one run
class Outcome:
    def __init__(self, status, why='', data=None):
        self.status, self.why, self.data = status, why, data or {}


def one(W, ob, inst=None, concrete=False, limit=25.0):
    """runs the root; returns (Outcome, result)"""
    res = {}

    def premise(I):
        x = X(I, W)
        pre = ob.pre(x) if ob.pre else TRUE
        res['pre'] = pre
        return pre
    ii = {}
    for k, v in ob.alias.items():
        ii[k] = psym(v) if isinstance(v, str) else v
    if inst:
        ii.update(inst)
        for k, v in ob.alias.items():
            if isinstance(v, str) and v in inst:
                ii[k] = inst[v]
    try:
        r = RUN.run_root(W, ob.root, ob.mode, ii, concrete, ob.ord, limit, premise, reads=ob.reads)
    except IP.Budget:
        return Outcome(UNDEC, 'time limit'), None
    except (IP.Giveup, RecursionError) as ex:
        return Outcome(UNDEC, '%s: %s' % (type(ex).__name__, ex)), None
    r.ob = ob
    pre = res['pre']
    if pre is FALSE:
        return Outcome('vacuous'), r
    try:
        return judge(W, ob, r, pre, ii if concrete else None), r
    except (IP.Giveup, RecursionError, IP.Budget) as ex:
        return Outcome(UNDEC, '%s: %s' % (type(ex).__name__, ex)), r


def describe(v, n=1500):
    try:
        s = show(v)
    except Exception:
        s = repr(type(v))
    return s if len(s) <= n else s[:n] + '…'


def judge(W, ob, r, pre, inst):
    x = X(r.I, W)
    unknown = bool(r.I.unknown_calls)
    out = PROVED
    why = ''
    # ---- panics
    if ob.panic == 'none':
        for p in r.panics:
            c = simpb(band(pre, p.cond), TRUE)
            if c is FALSE or not feasible(c):
                continue
            if c is TRUE and not p.approx:
                return Outcome(VIOLATED, 'panics (%s) at %s in %s' % (p.kind, p.span, p.fn), {'panic': repr(p)[:2000]})
            if not p.approx:
                ce = evalt.counterexample(c, None, pre, ob.dom(), trials=300, want=True)
                if ce is not None and surely(p, c):
                    return Outcome(VIOLATED, 'panics (%s) at %s in %s' % (p.kind, p.span, p.fn), {'panic': repr(p)[:2000], 'example': assign(ce)})
            out, why = UNDEC, 'a panic (%s at %s) could not be excluded: %s' % (p.kind, p.span, describe(p.cond, 300))
    elif ob.panic == 'must':
        for p in r.panics:
            c = simpb(band(pre, p.cond), TRUE)
            if c is FALSE or not feasible(c):
                continue
            bad = None
            if p.kind == 'operand':
                bad = 'reads an operand outside its dimensions at %s in %s' % (p.span, p.fn)
            elif ob.keep:
                for k in ob.keep:
                    if p.mem.get('in:' + k) is not r.init.get('in:' + k):
                        bad = 'modifies %s before it panics at %s in %s' % (k, p.span, p.fn)
            if bad:
                ce = c is TRUE or (evalt.counterexample(c, None, TRUE, ob.dom(), trials=400, want=True) if surely(p, c) else None)
                if ce is not None and (p.kind == 'operand' or inst is not None):
                    return Outcome(VIOLATED, bad, {'panic': repr(p)[:2000], 'example': assign(ce) if ce is not True else {}})
                out, why = UNDEC, bad + ' (not confirmed)'
        if r.st is None or not feasible(band(pre, r.st.pc)):
            return Outcome(out, why)
        c = simpb(band(pre, r.st.pc), TRUE)
        sp = function_span(r)
        if c is TRUE:
            return Outcome(VIOLATED, 'returns normally where it must panic (%s)' % sp, {'returns': describe(r.val) if r.val is not None else ''})
        ce = evalt.counterexample(c, None, TRUE, ob.dom(), trials=400, want=True)
        if ce is not None and surely(None, c):
            return Outcome(VIOLATED, 'returns normally where it must panic (%s)' % sp, {'condition': describe(c), 'example': assign(ce)})
        return Outcome(UNDEC, 'a normal return could not be excluded: ' + describe(c, 300))
    if ob.custom:
        o = ob.custom(x, r, pre)
        if o.status == PROVED and out == UNDEC:
            return Outcome(UNDEC, why)
        return o
    if ob.exp is None:
        return Outcome(out, why)
    # ---- value
    if r.st is None:
        if inst is not None or pre is TRUE:
            return Outcome(VIOLATED if r.panics else UNDEC, 'never returns')
        return Outcome(UNDEC, 'never returns')
    got = r.val if ob.at == 'val' else r.mem.get(ob.at)
    exp = ob.exp(x)
    if ob.after:
        got = ob.after(x, got)
    p = band(pre, r.st.pc) if ob.panic != 'none' else pre
    if ob.panic == 'none' and out == UNDEC:
        p = band(pre, r.st.pc)
    if got is None:
        return Outcome(UNDEC, 'no value')
    equal.FINAL[0] = True
    try:
        e = eqv(got, exp, p)
    finally:
        equal.FINAL[0] = False
    if e is True:
        return Outcome(out, why)
    info = {'expected': describe(exp), 'found': describe(got), 'under': describe(p, 400)}
    if got.hasu:
        if inst is None and ob.mode not in ('free', 'ieee'):
            # where the value is determined it may already differ: sizes to look at
            ce = evalt.counterexample(got, exp, p, ob.dom(), trials=600, partial=True)
            if ce is not None:
                info['hint'] = ce[0]
        return Outcome(UNDEC, 'value not determined: ' + describe(got, 300), info)
    if ob.mode == 'free':
        if e is False and not has_rel(got):
            return Outcome(VIOLATED, 'value differs', info)
        return Outcome(UNDEC, 'values not shown equal', info)
    ce = evalt.counterexample(got, exp, p, ob.dom(), trials=400 if ob.mode != 'ieee' else 4000)
    if ce is not None:
        info['example'] = assign(ce)
        return Outcome(VIOLATED, 'value differs', info)
    return Outcome(UNDEC, 'values not shown equal', info)


def surely(p, c):
    """the condition speaks about inputs only"""
    return not c.hasu and not has_kind(c, ('unk', 'choice', 'phi', 'havoc'))


def has_kind(v, kinds, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, N):
        if type(v) is tuple:
            return any(has_kind(x, kinds, seen) for x in v)
        return False
    if v in seen:
        return False
    seen.add(v)
    if v.k == 'atom':
        if v.a[1] in kinds:
            return True
        if v.a[1] == 'sym' and ('~' in v.a[2] or v.a[2].startswith('havoc')):
            return True
    return any(has_kind(x, kinds, seen) for x in v.a)


def has_rel(v):
    return has_kind(v, ('rel',))


def assign(ce):
    iv, names, a, b = ce
    return {'sizes': iv, 'inputs': {repr(k)[:80]: repr(v)[:80] for k, v in list(names.items())[:20]},
            'found': repr(a)[:400], 'expected': repr(b)[:400]}


def function_span(r):
    fs = crate_functions(r)
    return fs[0] if fs else ''


def crate_functions(r):
    out = []
    for k in sorted(r.I.visited, key=str):
        f = r.I.fns.get(k)
        if f is None:
            continue
        sp = f.get('span', '')
        if '/src/' in sp and '/verif/' not in sp:
            out.append('%s (%s)' % (f.get('path', k)[:160], sp))
    return out


# ------------------------------------------------------------------ instances
def constants(W, r):
    """integer constants of the crate code that was analysed: thresholds, block sizes"""
    out = set()

    def walk(o):
        if isinstance(o, dict):
            b = o.get('bits')
            if b is not None:
                try:
                    v = int(b)
                    if 2 <= v <= 1100:
                        out.add(v)
                except (ValueError, TypeError):
                    pass
            for y in o.values():
                walk(y)
        elif isinstance(o, list):
            for y in o:
                walk(y)
    for k in (r.I.visited if r is not None else W['fns']):
        f = W['fns'].get(k)
        if f and '/src/' in f.get('span', '') and '/verif/' not in f.get('span', ''):
            walk(f['blocks'])
    return sorted(out)


def grid(ob, params, consts, tier):
    ps = sorted(p for p in params if p not in ob.alias)
    if not ps:
        return []
    base = range(0, 9 if len(ps) == 1 else 6 if len(ps) == 2 else 4) if tier == 'quick' else range(0, 13 if len(ps) == 1 else 8 if len(ps) == 2 else 6)
    if len(ps) > 4:
        base = range(0, 3)
    vals = [[v for v in ob.sizes.get(p, base)] for p in ps]
    combos = sorted(itertools.product(*vals), key=lambda t: (sum(t), t))
    cap = 150 if tier == 'quick' else 800
    if len(combos) > cap:
        import random
        rnd = random.Random(7)
        head = combos[:cap // 2]
        combos = head + rnd.sample(combos[cap // 2:], cap // 2)
    big = []
    near = set()
    for c in consts[:6]:
        if c <= 40:
            near.update((c - 1, c, c + 1, 2 * c + 1))
    run = range(max(base) + 1, min(max(near) + 5, 45)) if near and len(ps) <= 3 else []
    for v in sorted(near) + [v for v in run if v not in near]:
        if v > 45:
            continue
        for i in range(len(ps)):
            for o in (1, 2):
                t = [o] * len(ps)
                t[i] = v
                big.append(tuple(t))
        if len(ps) == 2:
            for d in (-1, 0, 1):
                big.append((v, v + d))
        elif len(ps) > 2 and v <= 20:
            big.append(tuple([v] * len(ps)))
    far = []
    for c in consts:
        if c > 20:
            for v in (c + 1, c, 2 * c):
                for i in range(len(ps)):
                    for o in (1, 2):
                        t = [o] * len(ps)
                        t[i] = v
                        far.append(tuple(t))
                for i in range(len(ps)):
                    for j in range(len(ps)):
                        if i != j and 2 <= len(ps) <= 3:
                            for d in (0, 1):
                                t = [2] * len(ps)
                                t[i], t[j] = v + d, v
                                far.append(tuple(t))
    seen = set()
    for t in combos + big[:150 if tier == 'quick' else 600] + far[:60] + big[150:300]:
        if t not in seen:
            seen.add(t)
            yield dict(zip(ps, t))


def decide(W, ob, tier, deadline):
    """-> record"""
    t0 = time.time()
    rec = {'obligation': ob.id, 'root': ob.root, 'note': ob.note}
    if ob.root not in W['roots']:
        rec.update(status=VIOLATED, why='the client function %s, written against the documented interface, no longer type-checks' % ob.root)
        if W.get('lost', {}).get(ob.root):
            rec['compiler'] = W['lost'][ob.root]
        return rec
    o, r = one(W, ob, limit=25.0 if tier == 'quick' else 80.0)
    rec['how'] = 'all sizes'
    if r is not None:
        rec['functions'] = crate_functions(r)
        rec['counts'] = {k: v for k, v in r.I.counts.items() if v}
        params = set(r.I.params)
    else:
        params = set()
        fn = W['fns'][W['roots'][ob.root]['key']]
    rec['status'], rec['why'] = o.status, o.why
    rec.update({k: v for k, v in o.data.items()})
    if o.status == VIOLATED:
        rec['time'] = round(time.time() - t0, 3)
        return rec
    n = 0
    if o.status == UNDEC or tier == 'thorough':
        if not params:
            params = guess_params(W, ob)
        consts = constants(W, r)
        bad = None
        undec = 0
        tmax = time.time() + (40 if tier == 'quick' else 60)
        hint = o.data.get('hint')
        first = [{p: v for p, v in hint.items() if p in params}] if hint else []
        for inst in itertools.chain(first, grid(ob, params, consts, tier)):
            if time.time() > min(deadline, tmax):
                break
            o2, r2 = one(W, ob, inst, concrete=True, limit=30.0 if first and inst is first[0] else 6.0)
            if o2.status == 'vacuous':
                continue
            n += 1
            if o2.status == VIOLATED:
                bad = (inst, o2)
                break
            if o2.status == UNDEC:
                undec += 1
                rec.setdefault('undecided_instance', {'sizes': inst, 'why': o2.why})
                if undec > 12 and undec == n:
                    break
        rec['instances'] = n
        rec['instances_undecided'] = undec
        if bad:
            inst, o2 = bad
            rec['status'], rec['why'] = VIOLATED, o2.why
            rec['how'] = 'constant propagation of sizes %s' % inst
            for k, v in o2.data.items():
                rec[k] = v
            rec['sizes'] = inst
    rec['time'] = round(time.time() - t0, 3)
    return rec


def guess_params(W, ob):
    """parameters of the root when the symbolic run did not get anywhere"""
    RUN.set_mode(ob.mode)
    I = IP.Interp(W, ob.mode, {}, True, 5)
    try:
        root = W['roots'][ob.root]
        fn = W['fns'][root['key']]
        st = IP.St(TRUE, {})
        for nm, ty in zip(RUN.argnames(fn), root['ins']):
            I.fresh_val(ty, nm, (), st)
    except IP.Giveup:
        pass
    return set(I.params)
