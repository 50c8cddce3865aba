#!/usr/bin/env python3
"""vx.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current tree.

exit 0: no violation found; exit 1: VIOLATION line printed; 2: the tree or the machinery does not build
"""
import argparse, json, os, sys, time, hashlib
import multiprocessing as mp
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'        # the same steps in every run
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build
import check
import specs
import rules
import optim
import layout

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')
_W = {}


def known():
    """{(property, key): text}; lines 'known: property=ID key=KEY -- text'; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('known: property='):
                head, _, text = l[len('known: property='):].strip().partition(' -- ')
                pid, _, key = head.partition(' key=')
                out[(pid, key)] = text
    return out


def _job(a):
    mod, pid, i, tier, deadline, strip = a
    W = _W[mod]
    t0 = time.time()
    ob = None
    try:
        ob = list(specs.SPECS[pid](W))[i]
        if strip:
            ob = strip_value(ob)
            if ob is None:
                return None
        r = check.decide(W, ob, tier, deadline)
    except Exception as ex:      # an error of the machinery is never reported as a violation
        import traceback
        r = {'obligation': ob.id if ob else '?', 'root': ob.root if ob else '?', 'status': 'undecided',
             'why': 'internal: %s: %s' % (type(ex).__name__, ex), 'trace': traceback.format_exc()[-1500:]}
    r['from'] = pid
    r['seconds'] = round(time.time() - t0, 3)
    return r


def strip_value(ob):
    """the same premise, asking only for the absence of panics"""
    if ob.panic != 'none':
        return None
    return check.Ob(ob.root, None, pre=ob.pre, mode=ob.mode, alias=ob.alias, sizes=ob.sizes, key=ob.id, ord=None)


def obligations(pids, tier, deadline, strip=False):
    jobs = []
    for pid in pids:
        mod = specs.MODULE.get(pid, pid.lower())
        if mod not in _W:
            W = _W[mod] = build.dump(mod)[1]
            if any(t.get('k') == 'adt' and t['p'].split('::')[-1] == 'DMatrix' for t in W['types']):
                if 'layout' not in _W:
                    try:
                        _W['layout'] = layout.derive(build.dump('lay')[1])
                    except build.WitnessError:
                        _W['layout'] = None
                W['layout'] = _W['layout']
        seen = set()
        for i, ob in enumerate(specs.SPECS[pid](_W[mod])):
            if strip:     # one job per root and premise
                k = (ob.root, str(ob.alias), ob.mode)
                if ob.pre is None and k in seen:
                    continue
                seen.add(k)
            jobs.append((mod, pid, i, tier, deadline, strip))
    return [r for r in within(deadline + 20, _job, jobs) if r]


def within(end, f, jobs):
    """the results of the jobs that are done in time; the others are undecided"""
    out = [{'obligation': j[2] if isinstance(j[2], str) else 'obligation %s of %s' % (j[2], j[1]), 'root': '', 'status': 'undecided', 'why': 'time', 'from': j[1]} for j in jobs]
    if not jobs:
        return out
    with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
        rs = [pool.apply_async(f, (j,)) for j in jobs]
        for i, r in enumerate(rs):
            try:
                out[i] = r.get(max(0.01, end - time.time()))
            except mp.TimeoutError:
                pass
    return out


def _optim(a):
    return optim.decide(a[1], a[3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence'))
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(a.evidence, exist_ok=True)
    end = t0 + (270 if tier == 'quick' else 700)       # later, an obligation is undecided
    recs, extra = [], {}
    try:
        if pid in rules.RULES:
            rr, extra = rules.RULES[pid](tier)
            recs += rr
        if pid in optim.RULE:
            build.dump('o')
            r = within(end + 20, _optim, [('o', pid, optim.TITLE[pid], tier)])[0]
            rr, extra = r if isinstance(r, tuple) else ([r], {})
            recs += rr
        elif pid in specs.UNION:
            recs += obligations(specs.UNION[pid], tier, end, strip=True)
        elif pid in specs.PARTS:
            recs += obligations(specs.PARTS[pid], tier, end)
        elif pid in specs.SPECS:
            recs += obligations([pid], tier, end)
            if pid in specs.FORMULA:
                by, own = specs.FORMULA[pid]
                fr = obligations(by, tier, end)
                if all(r['status'] == 'proved' for r in fr):
                    recs += fr
                else:
                    recs += obligations([own], tier, end)
    except build.BuildError as ex:
        print('BUILD-ERROR property=%s\n%s' % (pid, ex))
        return 2
    except build.WitnessError as ex:
        recs.append({'obligation': 'client code', 'root': '', 'status': 'violated',
                     'why': 'a client program written against the documented interface no longer type-checks',
                     'compiler': str(ex)[-3000:]})
    kn = known()
    bad, kf = [], []
    for r in recs:
        if r['status'] == 'violated':
            (kf if (pid, r['obligation']) in kn else bad).append(r)
    nproved = sum(r['status'] == 'proved' for r in recs)
    und = [r for r in recs if r['status'] == 'undecided']
    for r in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, r['obligation'], kn[(pid, r['obligation'])]))
    fns = sorted({f for r in recs for f in r.get('functions', ())})
    counts = {}
    for r in recs:
        for k, v in r.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': len(recs) - len(kf), 'discharged': nproved,
            'undecided': [{'obligation': r['obligation'], 'why': r.get('why', '')[:300],
                           'sizes_checked': r.get('instances', 0)} for r in und],
            'checker_cmd': 'python3 engine/vx.py %s --tier %s' % (pid, tier),
            'trusted_base': TRUSTED,
            'rule': specs.RULE.get(pid) or rules.RULETEXT.get(pid) or optim.RULETEXT.get(pid, ''),
            'functions_analysed': len(fns), 'functions': fns[:80],
            'analysis_steps': counts,
            'size_instances': sum(r.get('instances', 0) or 0 for r in recs),
            'known_findings': [r['obligation'] for r in kf],
            'samples': [{k: r[k] for k in ('obligation', 'root', 'status', 'how', 'note') if r.get(k)} for r in recs[:60]],
        },
        'assumptions': ASSUME, 'violations': len(bad), 'wall_s': 0,
    }
    ev['coverage'].update(extra)
    rp = os.path.join(a.evidence, pid + '.violation.json')
    if bad:
        json.dump({'property': pid, 'violations': bad}, open(rp, 'w'), indent=1, default=str)
    elif os.path.exists(rp):
        os.unlink(rp)
    ev['wall_s'] = round(time.time() - t0, 3)
    json.dump(ev, open(os.path.join(a.evidence, pid + '.json'), 'w'), indent=1, default=str)
    for r in bad[:8]:
        print('%s %s [%s]: %s' % (pid, r['obligation'], r.get('how', ''), r.get('why', '')))
        for f in r.get('functions', ())[:6]:
            print('    through %s' % f)
        for k in ('expected', 'found', 'under', 'example'):
            if r.get(k):
                print('    %s: %s' % (k, str(r[k])[:600]))
    for r in und[:10]:
        print('undecided %s %s: %s %s' % (pid, r['obligation'], r.get('why', '')[:160], str(r.get('undetermined', ''))[:300]))
    print('%s: %d obligations, %d proved, %d undecided, %d known, %d violated; %d functions analysed; %.1fs'
          % (pid, len(recs), nproved, len(und), len(kf), len(bad), len(fns), time.time() - t0))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


TRUSTED = ['rustc front end and MIR construction (nightly)', 'the MIR abstract interpreter in engine/interp.py',
           'models of core/alloc/rand functions in engine/models.py', 'term normal forms and the linear arithmetic in engine/terms.py, logic.py, equal.py']
ASSUME = ['usize values are mathematical integers (no address-space overflow; D02 separately shows that address arithmetic of accepted entries cannot wrap)', 'allocation succeeds',
          'element operators are deterministic and satisfy the laws of the structure named by the obligation',
          'caller-supplied expressions and functions return, and return the same value for the same position']

if __name__ == '__main__':
    sys.exit(main())
