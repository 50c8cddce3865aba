"""Runs the interpreter on one witness function."""
import json, sys, time
sys.setrecursionlimit(20000)
from terms import *
import terms
from logic import *
import interp as IP
import models
import models_std


class Result:
    pass


def set_mode(mode):
    """ring: non-commutative exact; comm: field; free: uninterpreted operations;
    ieee: uninterpreted operations on floats, with their comparisons"""
    CFG.comm = mode == 'comm'
    CFG.ieee = mode == 'ieee'
    CFG.exact = mode not in ('free', 'ieee')


def run_root(W, name, mode='ring', inst=None, concrete=False, ord=None, limit=30.0, premise=None, setup=None, cut=False, wrap=False, reads=False):
    set_mode(mode)
    CFG.ord = ord
    if mode == 'ieee':
        mode, CFG.ord = 'free', 'float'
    I = IP.Interp(W, mode, inst, concrete, limit)
    root = W['roots'][name]
    fn = W['fns'][root['key']]
    st = IP.St(TRUE, {})
    I.rootname = name
    I.wrap = wrap
    I.reads = reads
    I.cut = cut
    names = argnames(fn)
    args = []
    for nm, ty in zip(names, root['ins']):
        args.append(I.fresh_val(ty, nm, (), st))
    pre = premise(I) if premise else TRUE
    I.premise = pre
    st.pc = pre
    r = Result()
    r.I, r.names, r.args = I, names, args
    r.init = dict(st.mem)
    r.pre = pre
    t0 = time.time()
    I.may_split = True
    r.val, r.st = run_split(I, root['key'], args, st, 6)
    r.time = time.time() - t0
    r.mem = {}
    if r.st is not None:
        for i, nm in enumerate(names):
            k = 'in:' + nm
            if k in r.st.mem:
                r.mem[nm] = r.st.mem[k]
        r.val = full(I, r.st, r.val)
    r.panics, r.events = I.panics, I.events
    r.root, r.fn = root, fn
    return r


def run_split(I, key, args, st, depth):
    """runs the function, separately under conditions on its inputs where the analysis asks for it"""
    np, ne = len(I.panics), len(I.events)
    I.may_split = depth > 0
    try:
        return I.run_fn(key, args, St_copy(st))
    except IP.SplitState as e:
        del I.panics[np:], I.events[ne:]
        I.stack, I.loopidx, I.active = [], [], []
        outs = []
        for c in e.conds:
            s = st.assume(c)
            if s is None:
                continue
            if s.pc is st.pc:
                raise IP.Giveup('splitting does not help')
            v, s = run_split(I, key, args, s, depth - 1)
            if s is not None:
                s.mem['result'] = v
                outs.append(s)
        s = IP.merge_states(outs)
        return (s.mem.pop('result'), s) if s is not None else (None, None)


def St_copy(st):
    return IP.St(st.pc, dict(st.mem))


def full(I, st, v):
    """follow references for comparison"""
    if v is None:
        return None
    if v.k == 'Ptr':
        return full(I, st, I.load(st, v))
    return v


def argnames(fn):
    nm = {}
    for pl, n in fn['names']:
        if isinstance(pl, int) and 1 <= pl <= fn['argc']:
            nm.setdefault(pl, n)
    return [nm.get(i + 1, 'arg%d' % i) for i in range(fn['argc'])]


if __name__ == '__main__':
    mod = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    mode = sys.argv[3] if len(sys.argv) > 3 else 'ring'
    inst = dict(kv.split('=') for kv in sys.argv[4].split(',')) if len(sys.argv) > 4 else None
    if inst:
        inst = {k: int(v) for k, v in inst.items()}
    W = json.load(open('/tmp/%s.json' % mod))['w']
    import traceback
    for n in W['roots']:
        if pat and pat not in n:
            continue
        print('=====', n)
        try:
            r = run_root(W, n, mode, inst, concrete=bool(inst))
        except Exception as e:
            traceback.print_exc(limit=-6)
            continue
        print('  val:', show(r.val)[:1500] if r.val is not None else None)
        for k, v in r.mem.items():
            if v is not r.init['in:' + k]:
                print('  *%s:' % k, show(v)[:1500])
        for p in r.panics:
            print('  ', p)
        for e in r.events:
            print('  ev', repr(e)[:600])
        for x in r.I.notes:
            print('  note', x[:500])
        if r.I.unknown_calls:
            print('  unknown', r.I.unknown_calls)
        print('  %.2fs %s' % (r.time, {k: v for k, v in r.I.counts.items() if v}))
