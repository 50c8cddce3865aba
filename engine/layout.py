"""How the crate represents a dynamic matrix: which fields hold the number of rows, the number of columns and the
entries, and whether the entries are stored by rows or by columns.

Nothing of this is part of a property, so it is read off the tree: constructors and accessors are interpreted on a
matrix with unknown fields, and each of them votes.  A single accessor that disagrees with the others is outvoted (and
reported by the check of the property that it breaks).
"""
from terms import *
from equal import eqv


class Layout:
    """tree: nested ('int', i) | ('seq', type) | ('zst',) | (tag, [trees]); rows, cols: numbers of int leaves; order: 'row' | 'col';
    more: {int leaf: f(rows, cols)} for further fields"""

    def __init__(self, tree, ints):
        self.tree, self.ints = tree, ints
        self.rows = self.cols = None
        self.order = 'row'
        self.more = {}

    def build(self, seq, ints):
        def go(t):
            if t[0] == 'int':
                return ints[t[1]]
            if t[0] == 'seq':
                return seq
            if t[0] == 'array':
                vs = [go(x) for x in t[1]]
                return lit(vs)
            return agg(t[0], [go(x) for x in t[1]])
        return go(self.tree)

    def leaves(self, v):
        """-> (sequence, {int leaf: value})"""
        ints, seq = {}, []

        def go(t, v):
            if v is None:
                v = U('part')
            if t[0] == 'int':
                ints[t[1]] = v
            elif t[0] == 'seq':
                seq.append(v)
            elif t[0] == 'array':
                for i, x in enumerate(t[1]):
                    go(x, gmap(v, lambda l: seqat(l, pc(i)) if l.k == 'Seq' else U('part')))
            else:
                for i, x in enumerate(t[1]):
                    go(x, gmap(v, lambda l: l.a[1][i] if l.k == 'Agg' and i < len(l.a[1]) else U('part')))
        go(self.tree, v)
        return seq[0], ints

    def matrix(self, rows, cols, f):
        if self.order == 'col':
            s = mkseq(pmul(rows, cols), lambda q: f(imod(q, rows), idiv(q, rows)))
        else:
            s = mkseq(pmul(rows, cols), lambda q: f(idiv(q, cols), imod(q, cols)))
        return self.build(s, self.fields(rows, cols))

    def fields(self, rows, cols):
        d = {self.rows: rows, self.cols: cols}
        for i, f in self.more.items():
            d[i] = f(rows, cols)
        return d

    def offset(self, rows, cols, r, c):
        return padd(pmul(c, rows), r) if self.order == 'col' else padd(pmul(r, cols), c)


def count(t):
    n = int(t['n']['int'])
    if n > 4:
        raise ValueError
    return n


def plan(ty, fs):
    """the tree of a struct with these fields; None: not of this kind"""
    cnt = [0]
    seqs = []

    def go(i):
        t = ty(i)
        k = t['k']
        if k == 'uint':
            cnt[0] += 1
            return ('int', cnt[0] - 1)
        if k == 'tuple':
            return ('tuple', [go(f) for f in t['f']])
        if k == 'array':
            return ('array', [go(t['e']) for _ in range(count(t))])
        if k == 'adt':
            if t['p'] in ('alloc::boxed::Box', 'alloc::vec::Vec'):
                e = ty(t['a'][0]['t'])
                seqs.append(e['e'] if e['k'] == 'slice' else t['a'][0]['t'])
                return ('seq', seqs[-1])
            if t.get('local', True) and not t.get('enum') and t.get('v'):
                return (t['p'], [go(f) for _, f in t['v'][0][2]])
        raise ValueError
    try:
        tree = ('', [go(t) for _, t in fs])
    except (ValueError, KeyError, TypeError):
        return None
    if len(seqs) != 1 or cnt[0] < 2:
        return None
    return tree, cnt[0], seqs[0]


def names(ty, fs):
    """paths of the int leaves, for want of votes"""
    out = []

    def go(n, i):
        t = ty(i)
        if t['k'] == 'uint':
            out.append(n)
        elif t['k'] == 'tuple':
            for j, f in enumerate(t['f']):
                go('%s.%d' % (n, j), f)
        elif t['k'] == 'array':
            for j in range(count(t)):
                go('%s.%d' % (n, j), t['e'])
        elif t['k'] == 'adt' and t['p'] not in ('alloc::boxed::Box', 'alloc::vec::Vec'):
            for m, f in t['v'][0][2]:
                go(n + '.' + m, f)
    for n, t in fs:
        go(n, t)
    return out


def default(I, p, fs):
    r = plan(I.ty, fs)
    if r is None:
        return None
    L = Layout((p, r[0][1]), r[1])
    ns = names(I.ty, fs)
    ri = [i for i, n in enumerate(ns) if 'row' in n or 'height' in n]
    ci = [i for i, n in enumerate(ns) if 'col' in n or 'width' in n]
    if len(ns) == 2:
        L.rows, L.cols = (1, 0) if (ri == [1] or ci == [0]) else (0, 1)
    elif len(ri) == 1 and len(ci) == 1:
        L.rows, L.cols = ri[0], ci[0]
    return L


RAW = '#'


def derive(W):
    """the layout of this tree"""
    import run as RUN
    import interp as IP
    out = {}
    L = None

    def at(name):
        try:
            r = RUN.run_root(W, name, 'free', limit=20.0)
        except (IP.Giveup, IP.Budget, RecursionError, IP.SplitState):
            return None
        return r if r.st is not None and r.val is not None else None
    W['layout'] = None
    W['rawmatrix'] = True
    runs = {n: at(n) for n in W['roots']}
    W['rawmatrix'] = False
    for r in runs.values():
        if r is not None and getattr(r.I, 'matlayout', None):
            L = r.I.matlayout
    if L is None:
        return None
    vr, vc = [], []
    leaf = lambda i: psym('m%s%d' % (RAW, i))
    for n, (rows, cols) in (('w_eval', (psym('rows(a)'), psym('cols(a)'))), ('w_array', (psym('R'), psym('C')))):
        r = runs.get(n)
        if r is not None:
            _, ints = L.leaves(r.val)
            vr += [i for i, v in ints.items() if v is rows]
            vc += [i for i, v in ints.items() if v is cols]
    for n, vs in (('w_rows', vr), ('w_rows_ref', vr), ('w_cols', vc), ('w_cols_ref', vc)):
        r = runs.get(n)
        if r is not None:
            vs += [i for i in range(L.ints) if r.val is leaf(i)]
    both = [(vr.count(i) + vc.count(j), -abs(i - (L.rows or 0)), i, j) for i in range(L.ints) for j in range(L.ints) if i != j]
    if vr and vc:
        _, _, L.rows, L.cols = max(both)
    if L.rows is None or L.cols is None:
        return None
    # further fields, as functions of the shape
    rest = [i for i in range(L.ints) if i not in (L.rows, L.cols)]
    for i in rest:
        r = runs.get('w_eval')
        v = L.leaves(r.val)[1].get(i) if r is not None else None
        if v is None or v.k != 'P' or v.hasu:
            return None
        ra, ca = atom('i', 'sym', 'rows(a)'), atom('i', 'sym', 'cols(a)')
        if set(support(v)) - {ra, ca}:
            return None
        L.more[i] = lambda rows, cols, v=v: subst(v, {ra: rows, ca: cols})
    # order of the entries
    votes = {'row': 0, 'col': 0}
    i, j = psym('i'), psym('j')
    for n in ('w_entry', 'w_entry_ref', 'w_index', 'w_index_mut'):
        r = runs.get(n)
        if r is None:
            continue
        for o in votes:
            L.order = o
            e = ein('m' + RAW, L.offset(leaf(L.rows), leaf(L.cols), i, j))
            if eqv(r.val, e, r.st.pc) is True:
                votes[o] += 1
    for n, rows, cols, f in (('w_eval', psym('rows(a)'), psym('cols(a)'), lambda r, c: eapp('entry', ein('a'), r, c)),
                             ('w_array', psym('R'), psym('C'), lambda r, c: ein('a', r, c))):
        r = runs.get(n)
        if r is None:
            continue
        for o in votes:
            L.order = o
            try:
                x = L.leaves(L.matrix(rows, cols, f))[0]
                if eqv(L.leaves(r.val)[0], x, r.st.pc) is True:
                    votes[o] += 1
            except (IP.Giveup, IP.Budget, RecursionError):
                pass
    L.order = 'col' if votes['col'] > votes['row'] else 'row'
    L.votes = votes
    return L

