"""Rule checks decided on the item dump of the crate (effects, state) and on the trait solver's answers (lattice).

A rule returns (records, extra coverage); a record has the same shape as an obligation of check.py.
"""
import re
import build

# ---------------------------------------------------------------- E01: effects
DENY = [   # (pattern on the path of a referenced function, effect)
    (r'^std::(io|fs|net)\b', 'input or output'),
    (r'^std::time\b', 'reads a clock'),
    (r'^std::thread\b', 'threads or thread-local state'),
    (r'^std::process\b', 'processes'),
    (r'^std::env\b', 'reads the environment'),
    (r'^std::os\b', 'operating system'),
    (r'^std::(random|hash::random)\b', 'ambient randomness'),
    (r'^std::backtrace\b|^std::panic(king)?::(set_hook|take_hook|update_hook|catch_unwind)', 'panic machinery'),
    (r'^std::sys\b|^libc::', 'operating system'),
    (r'^rand::random\b|^rand::rngs::(thread|os)\b|^rand::thread_rng\b|^rand_core::os\b|^getrandom\b', 'ambient randomness'),
    (r'from_entropy$|from_os_rng$|\bthread_rng$', 'ambient randomness'),
    (r'(OsRng|ThreadRng)', 'ambient randomness'),
    (r'hash::(map::HashMap|set::HashSet)<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain)$',
     'iteration in an order that depends on ambient randomness'),
    (r'hash::(map::HashMap|set::HashSet)<.*IntoIterator>::into_iter$', 'iteration in an order that depends on ambient randomness'),
    (r'hash::(map|set)::.*(Iter|Keys|Values|Drain)\b', 'iteration in an order that depends on ambient randomness'),
    (r'::(expose_provenance|expose_addr|addr)$', 'uses the address of an object as a value'),
]
DENY = [(re.compile(p), e) for p, e in DENY]


def _refs(f):
    """(type index, span) of every function constant and the casts of one MIR body"""
    def consts(x, span):
        if isinstance(x, dict):
            if 'ty' in x:
                yield ('c', x['ty'], span)
            for y in x.values():
                yield from consts(y, span)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == 'cast' and isinstance(x[1], str):
                yield ('cast', x[1], span)
            for y in x:
                yield from consts(y, span)
    for b in f['blocks']:
        for s in b['s']:
            sp = next((y for y in reversed(s) if isinstance(y, str) and ':' in y), f['span'])
            yield from consts(s, sp)
        t = b['t']
        sp = next((y for y in reversed(t) if isinstance(y, str) and ':' in y), f['span'])
        yield from consts(t, sp)


def effects(I):
    """[(kind, construct, where, detail)] of all effects in an item dump, and what was scanned"""
    T = I['types']
    found = []
    nref = 0
    for k, span in I['unsafe']:
        found.append(('unsafe', k, span, 'unsafe code'))
    for it in I['items']:
        if it['k'] == 'static' and (it['mut'] or it['cell'] or it['tls']):
            found.append(('state', it['p'], it['span'], 'mutable global or thread-local state'))
        if it['k'] == 'foreign':
            found.append(('foreign', it['p'], it['span'], 'foreign functions'))
    fns = 0
    for key, f in I['fns'].items():
        if not f['local']:
            continue
        fns += 1
        seen = set()
        for kind, x, span in _refs(f):
            nref += 1
            if kind == 'cast':
                if x.startswith('PointerExpose'):
                    found.append(('address', f['path'], span, 'uses the address of an object as a value'))
                continue
            t = T[x]
            if t['k'] != 'fndef':
                continue
            c = t.get('c') or {}
            ps = [p for p in (c.get('rp'), c.get('p')) if p] + [t.get('s', '').rsplit('{', 1)[-1].rstrip('}')]
            for p in ps:
                hit = next((e for d, e in DENY if d.search(p)), None)
                if hit and (p, span) not in seen:
                    seen.add((p, span))
                    found.append(('call', f['path'], span, '%s: %s' % (hit, p)))
                    break
    return found, {'functions': fns, 'references': nref, 'items': len(I['items'])}


SELFTEST = {'bad_unsafe', 'bad_tls', 'bad_ffi', 'bad_print', 'bad_time', 'bad_env', 'bad_thread', 'bad_rng', 'bad_thread_rng',
            'bad_entropy', 'bad_fs', 'bad_hash', 'bad_addr', 'bad_exit', 'Tr>::m', 'CALLS', 'RAW', '__RUST_STD_INTERNAL_VAL'}


def e01(tier):
    fx, _ = effects(build.scan_fixture('e01_bad'))
    names = ' '.join(str(x) for x in fx)
    unsafe_lines = {s for k, _, s, _ in fx if k == 'unsafe'}
    miss = [n for n in SELFTEST if n not in names and n not in ('bad_unsafe', 'bad_ffi')]
    if len(unsafe_lines) < 4 or 'foreign' not in {k for k, *_ in fx}:
        miss.append('unsafe')
    if any('::good' in str(x) or 'FINE' in str(x) for x in fx):
        miss.append('good reported')
    recs = []
    if miss:
        return [{'obligation': 'self-test of the scan', 'root': '', 'status': 'undecided', 'why': 'fixture not reported: %s' % miss}], {}
    recs.append({'obligation': 'self-test of the scan', 'root': 'fixtures/e01_bad.rs', 'status': 'proved',
                 'how': 'all %d planted effects are reported' % len(fx)})
    I, _ = build.dump(None, items=True)
    found, cov = effects(I)
    groups = {'unsafe': 'no unsafe code', 'state': 'no mutable global or thread-local state', 'foreign': 'no foreign functions',
              'call': 'no input, output, clock, thread, process, environment or ambient randomness',
              'address': 'no use of addresses as values'}
    for g, title in groups.items():
        fs = [x for x in found if x[0] == g]
        if not fs:
            recs.append({'obligation': title, 'root': 'whole crate', 'status': 'proved', 'how': 'effect scan',
                         'note': '%(functions)d bodies, %(references)d operands, %(items)d items' % cov})
        for _, who, span, det in fs:
            recs.append({'obligation': '%s: %s' % (title, who), 'root': who, 'status': 'violated', 'how': 'effect scan',
                         'why': '%s at %s' % (det, span), 'functions': [who]})
    recs[0]['functions'] = sorted({f['path'] for f in I['fns'].values() if f['local']})
    return recs, {'scanned': cov}


# ---------------------------------------------------------------- E03: values that are never dropped
LOSE = [
    (r'^(std|core)::mem::forget$|^(std|core)::intrinsics::forget$', 'forgets a value'),
    (r'mem::(manually_drop::)?ManuallyDrop', 'suppresses the drop of a value'),
    (r'mem::(maybe_uninit::)?MaybeUninit', 'suppresses the drop of a value'),
    (r'(Box|Vec|String|Rc|Arc|CString)(::)?(<.*>)?::(leak|into_raw|into_raw_with_allocator|into_raw_parts|increment_strong_count)$', 'leaks an allocation'),
    (r'::(leak|into_raw|into_raw_parts|into_non_null)$', 'leaks an allocation'),
    (r'(Rc|Arc)(::)?(<.*>)?::new_cyclic$', 'builds a reference cycle'),
]
LOSE = [(re.compile(p), e) for p, e in LOSE]
FIELDS = re.compile(r'ManuallyDrop<|MaybeUninit<|\*const |\*mut |NonNull<')
SHARED, CELL = re.compile(r'\b(Rc|Arc)<'), re.compile(r'\b(RefCell|Cell|OnceCell|Mutex|RwLock|OnceLock)<')


def losses(I):
    found, nref, fns = [], 0, 0
    T = I['types']
    for it in I['items']:
        if it['k'] == 'adt':
            for name, pub, ty in it['fields']:
                if FIELDS.search(ty):
                    found.append(('field', '%s.%s' % (it['p'], name), it['span'], 'a field whose value is not dropped: ' + ty))
                if SHARED.search(ty) and CELL.search(ty):
                    found.append(('cycle', '%s.%s' % (it['p'], name), it['span'], 'a shared mutable link can close a cycle: ' + ty))
    for key, f in I['fns'].items():
        if not f['local']:
            continue
        fns += 1
        seen = set()
        for kind, x, span in _refs(f):
            nref += 1
            if kind == 'cast' or T[x]['k'] != 'fndef':
                continue
            t = T[x]
            c = t.get('c') or {}
            ps = [p for p in (c.get('rp'), c.get('p')) if p] + [t.get('s', '').rsplit('{', 1)[-1].rstrip('}')]
            for p in ps:
                hit = next((e for d, e in LOSE if d.search(p)), None)
                if hit and (p, span) not in seen:
                    seen.add((p, span))
                    found.append(('call', f['path'], span, '%s: %s' % (hit, p)))
                    break
    return found, {'functions': fns, 'references': nref, 'items': len(I['items'])}


def e03(tier):
    fx, _ = losses(build.scan_fixture('e03_bad'))
    who = ' '.join(str(x) for x in fx)
    miss = [n for n in ('bad_forget', 'bad_manually', 'bad_box', 'bad_vec', 'bad_raw', 'bad_rc', 'bad_closure', 'bad_uninit', 'bad_cyclic', 'Field', 'Cyc') if n not in who]
    if any('::good' in str(x) for x in fx):
        miss.append('good reported')
    if miss:
        return [{'obligation': 'self-test of the scan', 'root': '', 'status': 'undecided', 'why': 'fixture not reported: %s' % miss}], {}
    recs = [{'obligation': 'self-test of the scan', 'root': 'fixtures/e03_bad.rs', 'status': 'proved', 'how': 'all %d planted losses are reported' % len(fx)}]
    I, _ = build.dump(None, items=True)
    found, cov = losses(I)
    unsafe = [(k, s) for k, s in I['unsafe']]
    found += [('unsafe', k, s, 'unsafe code can duplicate or lose values') for k, s in unsafe]
    for g, title in (('call', 'no call that suppresses drops or leaks'), ('field', 'no field that is not dropped'), ('cycle', 'no type that can form a reference cycle'),
                     ('unsafe', 'no unsafe code')):
        fs = [x for x in found if x[0] == g]
        if not fs:
            recs.append({'obligation': title, 'root': 'whole crate', 'status': 'proved', 'how': 'effect scan', 'note': '%(functions)d bodies, %(references)d operands, %(items)d items' % cov})
        for _, w, span, det in fs:
            recs.append({'obligation': '%s: %s' % (title, w), 'root': w, 'status': 'violated', 'how': 'effect scan', 'why': '%s at %s' % (det, span), 'functions': [w]})
    recs[0]['functions'] = sorted({f['path'] for f in I['fns'].values() if f['local']})
    return recs, {'scanned': cov}


# ---------------------------------------------------------------- R02: the trait lattice
RING, FIELD = 'magnesia::algebra::ring::Ring', 'magnesia::algebra::field::Field'
WANT = {   # query: (is a ring, is a field)
    'i8': (1, 0), 'i16': (1, 0), 'i32': (1, 0), 'i64': (1, 0), 'i128': (1, 0), 'isize': (1, 0), 'f32': (1, 1), 'f64': (1, 1),
    'complex_ring': (1, 0), 'complex_field': (1, 1), 'complex_i32': (1, 0), 'complex_f64': (1, 1), 'complex_complex_f32': (1, 1),
    'poly_ring': (1, 0), 'poly_field': (1, 0), 'poly_f64': (1, 0), 'poly_poly_i64': (1, 0),
    'smat_sq_ring': (1, 0), 'smat_sq_field': (1, 0), 'smat_sq_1_f64': (1, 0), 'smat_sq_i32': (1, 0),
}   # every other query: neither


def r02(tier):
    _, W = build.dump('r02')
    recs = []
    n = 0
    for q, v in sorted(W['queries'].items()):
        want = WANT.get(q[2:], (0, 0))
        for tr, w, name in ((RING, want[0], 'ring'), (FIELD, want[1], 'field')):
            if tr not in v['impls']:
                recs.append({'obligation': '%s as %s' % (q, name), 'root': q, 'status': 'undecided', 'why': 'trait not found'})
                continue
            n += 1
            ok = v['impls'][tr] == w
            r = {'obligation': '%s %s a %s' % (q[2:], 'is' if w else 'is not', name), 'root': q, 'how': 'trait solver'}
            if ok:
                r['status'] = 'proved'
            else:
                r['status'] = 'violated'
                r['why'] = 'the type checker %s %s where a %s is required' % ('accepts' if v['impls'][tr] else 'rejects', v['ty'], name)
            recs.append(r)
    return recs, {'trait_queries': n}


# ---------------------------------------------------------------- D10: who can reach the storage
def d10(tier):
    I, _ = build.dump(None, items=True)
    recs = []
    for it in I['items']:
        if it['k'] == 'adt' and it['p'].split('::')[-1] in ('DMatrix', 'DVector') and it['p'].startswith('magnesia::linalg::'):
            for name, pub, ty in it['fields']:
                if name == '_' or 'PhantomData' in ty:
                    continue
                r = {'obligation': 'field %s of %s is private' % (name, it['p'].split('::')[-1]), 'root': it['p'], 'how': 'visibility'}
                r['status'] = 'violated' if pub else 'proved'
                if pub:
                    r['why'] = 'client code can assign the field %s: %s declared at %s' % (name, ty, it['span'])
                recs.append(r)
    if not recs:
        recs.append({'obligation': 'storage fields are private', 'root': '', 'status': 'undecided', 'why': 'types not found'})
    return recs, {}


# ---------------------------------------------------------------- T01, T02: client programs the compiler accepts or refuses
def programs(module):
    def f(tier):
        res, errs, text = build.typecheck(module)
        recs = []
        codes = {}
        for n in sorted(res):
            want = n.startswith('no_')
            r = {'obligation': '%s %s' % (n[3:], 'is refused' if want else 'is accepted'), 'root': n, 'how': 'type checker'}
            for c, _ in errs.get(n, ())[:1]:
                codes[c] = codes.get(c, 0) + 1
            if res[n] == want:
                r['status'] = 'proved'
            elif want:
                r.update(status='violated', why='the type checker accepts a program it has to refuse: ' + text[n])
            else:
                r.update(status='violated', why='the type checker refuses a program it has to accept: %s: %s' % (text[n], errs.get(n, [''])[0]))
            recs.append(r)
        return recs, {'programs': len(res), 'to_be_accepted': sum(n[:2] == 'ok' for n in res), 'to_be_refused': sum(n[:2] == 'no' for n in res),
                      'error_codes_of_refused_programs': codes}
    return f


RULES = {'E01': e01, 'E03': e03, 'R02': r02, 'D10': d10, 'T01': programs('t01'), 'T02': programs('t02')}
RULETEXT = {
    'E03': 'every body of the crate is scanned for references to functions that keep a value from being dropped (forget, ManuallyDrop, MaybeUninit, leak, into_raw, '
           'new_cyclic), every type for fields that are not dropped or can close a cycle of shared pointers, and for unsafe code; in safe Rust everything else is '
           'dropped exactly once. A fixture crate with one instance of each is scanned first and must be reported completely.',
    'T01': 'client programs for every operator on static vectors and matrices and every pattern of equal and different dimensions (symbolic const parameters, and small and '
           'large literal ones): the type checker must accept those whose dimensions fit and refuse all others; a refused program differs from an accepted one in a dimension only.',
    'T02': 'client programs that require Send, Sync, UnwindSafe, \'static, Clone, Copy, PartialEq, Eq or Debug of each structure over an entry type known only to have that property '
           '(must be accepted), of structures over entries without it (must be refused), and Send and Sync of each kind of lazy expression over operands known only to have it.',
    'D10': 'every field of DMatrix and DVector is private to the crate\'s module, so only the analysed operations reach the storage.',
    'E01': 'every body of the crate (all functions, methods, trait defaults and closures, generic ones included) is scanned for '
           'unsafe blocks/fns/impls/asm, statics that are mutable, thread-local or contain a cell, foreign items, pointer-to-integer '
           'casts and references to functions with an effect; any hit is a violation. A fixture crate with one instance of each '
           'effect is scanned first and must be reported completely.',
    'R02': 'for each library and primitive type (generic over element types and dimensions) the trait solver is asked whether '
           'the type implements Ring and Field under exactly the stated bounds; each answer must equal the specified one.',
}
LEVELNOTE = {
    'E03': 'Decided for the whole crate by scanning every body and type; values lost by caller-supplied code are the caller\'s. Trusts rustc and the list of leaking std functions.',
    'T01': 'Decided by the type checker with symbolic dimensions, so a general impl is excluded for all dimensions at once; impls for single literal dimensions are excluded for 0..3 and spot values only.',
    'T02': 'Decided by the type checker for all entry types with the stated property and all dimensions.',
    'E01': 'Decided for the whole crate by scanning every body; effects hidden behind caller-supplied operators are the caller\'s. '
           'Trusts rustc and the deny-list of effectful std/rand paths (validated on a fixture at every run).',
    'R02': 'Decided by the type checker for all element types satisfying the stated bounds and all dimensions; '
           'concrete spot instantiations stand for the remaining primitive types.',
}
