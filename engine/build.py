"""Builds the dump of /repo's current tree: driver, dependencies, magnesia, witness."""
import json, os, re, subprocess, sys, fcntl, hashlib, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.environ.get('VX_BUILD', os.path.join(VERIF, '.build'))
WIT = os.path.join(VERIF, 'witness')
RUSTC = ['rustc', '+nightly']


class BuildError(Exception):
    pass


class WitnessError(Exception):
    """the witness crate (a client of the public API) does not compile"""


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = _run(RUSTC + ['--print', 'sysroot'])
    if r.returncode:
        raise BuildError(r.stdout)
    return r.stdout.strip()


def _stamp(*files):
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def setup():
    """driver + dependencies; cached on the content of their sources"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = os.path.join(BUILD, 'vxdriver')
        st = os.path.join(BUILD, 'driver.stamp')
        want = _stamp(os.path.join(VERIF, 'driver/main.rs'))
        if not (os.path.exists(drv) and os.path.exists(st) and open(st).read() == want):
            sr = sysroot()
            r = _run(RUSTC + ['--edition', '2021', '-O', os.path.join(VERIF, 'driver/main.rs'), '-o', drv + '.tmp',
                              '-C', 'link-arg=-Wl,-rpath,%s/lib' % sr])
            if r.returncode:
                raise BuildError('driver does not build:\n' + r.stdout[-4000:])
            os.replace(drv + '.tmp', drv)
            open(st, 'w').write(want)
        dj = os.path.join(BUILD, 'deps.json')
        want = _stamp(os.path.join(VERIF, 'deps/Cargo.toml'), os.path.join(VERIF, 'deps/Cargo.lock'))
        ok = False
        if os.path.exists(dj):
            d = json.load(open(dj))
            ok = d['stamp'] == want and all(os.path.exists(f) for f in d['files'].values())
        if not ok:
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--target-dir', os.path.join(BUILD, 'deps'),
                                '--message-format=json'], cwd=os.path.join(VERIF, 'deps'),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            files = {}
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('reason') == 'compiler-artifact':
                    for f in m['filenames']:
                        if f.endswith('.rmeta'):
                            files[m['target']['name']] = f
            if r.returncode or 'rand' not in files:
                raise BuildError('dependencies do not build:\n' + r.stderr[-4000:])
            json.dump({'stamp': want, 'files': files}, open(dj, 'w'))
    return drv, json.load(open(dj))['files']


FLAGS = ['--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '-Zmir-opt-level=0', '-Coverflow-checks=on',
         '-Cdebug-assertions=off', '-Zalways-encode-mir', '--cap-lints', 'allow', '-Awarnings']


LEVELS = ['Clone', 'Copy', 'Clone + PartialEq', 'Clone + Zero', 'Ring', 'Field', 'Copy + PartialOrd']


def relax(fn, bound):
    """the text of a client function with one more bound on its type parameters"""
    m = re.match(r'pub fn (\w+)<', fn)
    if not m:
        return fn
    d, i = 1, m.end()
    start, params = i, []
    while d:
        c = fn[i]
        if c in '<([':
            d += 1
        elif c in ')]' or c == '>' and fn[i - 1] != '-':
            d -= 1
        if d == 0 or d == 1 and c == ',':
            params.append(fn[start:i])
            start = i + 1
        i += 1
    out, extra = [], ''
    for p in params:
        q = p.strip()
        n = q.split(':')[0].strip()
        if q.startswith(("'", 'const ')) or re.search(r'\b(Fn|FnMut|FnOnce|Rng)\b', q):
            out.append(q)
        elif re.search(r'\b(VectorExpr|MatrixExpr)\b', q):
            out.append(q)
            extra += ' %s::Entry: %s,' % (n, bound)
        else:
            out.append(q + (' + ' if ':' in q else ': ') + bound)
    head, rest = fn[:m.end()] + ', '.join(out), fn[i - 1:]
    if extra:
        a = rest.index('{')
        b = re.search(r'\bwhere\b', rest[:a])
        rest = rest[:b.end()] + extra + rest[b.end():] if b else rest[:a] + ' where' + extra + ' ' + rest[a:]
    return head + rest


def narrowed(src, comp, r):
    """an interface that asks for more than documented: such client functions get the
    bounds they need; functions that are refused anyway are left out -> (result, {name: error})"""
    lines = src.split('\n')
    orig, lost = list(lines), {}

    def errors(out):
        return sorted({int(m.group(1)) - 1 for m in re.finditer(r'--> \S*w\.rs:(\d+):', out)})
    bad = [k for k in errors(r.stdout) if lines[k].startswith('pub fn ') and lines[k].rstrip().endswith('}')]
    first = r.stdout
    if not bad:
        return r, {}
    for lv in LEVELS + [None]:
        for k in bad:
            lines[k] = relax(orig[k], lv) if lv else ''
            if not lv:
                lost[re.match(r'pub fn (\w+)', orig[k]).group(1)] = first[-3000:]
        r = comp('\n'.join(lines))
        bad2 = errors(r.stdout) if r.returncode else []
        if not r.returncode:
            return r, lost
        bad = [k for k in bad2 if orig[k].startswith('pub fn ') and orig[k].rstrip().endswith('}')]
        if not bad:
            break
    return r, {}


def dump(module, items=False):
    """compiles /repo's current tree and the witness module; returns (items_json or None, roots_json or None)"""
    drv, files = setup()
    L = []
    for d in sorted({os.path.dirname(f) for f in files.values()}):
        L += ['-L', 'dependency=' + d]
    tmp = tempfile.mkdtemp(prefix='vx', dir=BUILD)
    try:
        env = dict(os.environ)
        env.pop('VX_OUT', None)
        env['VX_ALLOW'] = os.path.join(VERIF, 'engine/allow.txt')
        ij = os.path.join(tmp, 'items.json')
        if items:
            env['VX_OUT'] = ij
            env['VX_MODE'] = 'items'
        rm = os.path.join(tmp, 'libmagnesia.rmeta')
        ext = ['--extern', 'rand=' + files['rand']] + L
        r = _run([drv] + ['vxdriver', os.path.join(REPO, 'src/lib.rs'), '--crate-name', 'magnesia', '-o', rm][1:] + FLAGS + ext,
                 env=env, cwd=REPO)
        if r.returncode or not os.path.exists(rm):
            raise BuildError('magnesia does not build:\n' + r.stdout[-4000:])
        I = json.load(open(ij)) if items else None
        W = None
        if module:
            wj = os.path.join(tmp, 'w.json')
            env['VX_OUT'] = wj
            env['VX_MODE'] = 'roots'
            src = open(os.path.join(WIT, module + '.rs')).read().replace('include!("prelude.rs")', 'include!(%s)' % json.dumps(os.path.join(WIT, 'prelude.rs')))

            def comp(text):
                p = os.path.join(tmp, 'w.rs')
                open(p, 'w').write(text)
                if os.path.exists(wj):
                    os.unlink(wj)
                return _run([drv, p, '--crate-name', 'vxw', '-o', os.path.join(tmp, 'libvxw.rmeta')] + FLAGS + ext + ['--extern', 'magnesia=' + rm],
                            env=env, cwd=tmp)
            r = comp(src)
            lost = {}
            if r.returncode or not os.path.exists(wj):
                r, lost = narrowed(src, comp, r)
            if r.returncode or not os.path.exists(wj):
                raise WitnessError(r.stdout[-6000:])
            W = json.load(open(wj))
            W['lost'] = lost
        return I, W
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def typecheck(module):
    """the client functions of a module that rustc refuses, each with its errors; every function is on one line.
    -> ({name: refused?}, {name: [(code, message)]})"""
    drv, files = setup()
    L = []
    for d in sorted({os.path.dirname(f) for f in files.values()}):
        L += ['-L', 'dependency=' + d]
    tmp = tempfile.mkdtemp(prefix='vx', dir=BUILD)
    try:
        env = dict(os.environ)
        env.pop('VX_OUT', None)
        rm = os.path.join(tmp, 'libmagnesia.rmeta')
        ext = ['--extern', 'rand=' + files['rand']] + L
        r = _run(RUSTC + [os.path.join(REPO, 'src/lib.rs'), '--crate-name', 'magnesia', '-o', rm] + FLAGS + ext, env=env, cwd=REPO)
        if r.returncode or not os.path.exists(rm):
            raise BuildError('magnesia does not build:\n' + r.stdout[-4000:])
        src = open(os.path.join(WIT, module + '.rs')).read().replace('include!("prelude.rs")', 'include!(%s)' % json.dumps(os.path.join(WIT, 'prelude.rs')))
        lines = src.split('\n')
        names = {}
        for i, l in enumerate(lines):
            m = re.match(r'pub fn ((?:ok|no)_\w+)', l)
            if m:
                names[i] = m.group(1)

        def refused(keep):
            """errors per function, with only the given functions present"""
            p = os.path.join(tmp, 't.rs')
            open(p, 'w').write('\n'.join(l if i not in names or i in keep else '' for i, l in enumerate(lines)))
            r = subprocess.run(RUSTC + [p, '--crate-name', 'vxt', '-o', os.path.join(tmp, 'libvxt.rmeta'), '--error-format=json'] + FLAGS + ext
                               + ['--extern', 'magnesia=' + rm], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            out, other = {}, []
            for l in r.stderr.splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') != 'error' or not d.get('spans'):
                    continue
                ks = [x['line_start'] - 1 for x in d['spans'] if x['is_primary'] and x['file_name'].endswith('t.rs')]
                e = ((d.get('code') or {}).get('code') or '', d['message'])
                for k in ks:
                    if k in names:
                        out.setdefault(names[k], []).append(e)
                if not any(k in names for k in ks):
                    other.append(e)
            if r.returncode and not out:
                raise WitnessError(r.stderr[-3000:])
            return out, r.returncode
        ok = {i for i in names if names[i].startswith('ok_')}
        no = set(names) - ok
        res, errs = {}, {}
        e, _ = refused(ok)
        for i in ok:
            res[names[i]] = names[i] in e
            errs.update(e)
        e, _ = refused(no)
        errs.update(e)
        fine = {i for i in no if names[i] not in e}
        if fine:            # errors elsewhere must not hide those of these functions
            e2, _ = refused(fine)
            errs.update(e2)
            fine = {i for i in fine if names[i] not in e2}
        for i in no:
            res[names[i]] = i not in fine
        return res, errs, {names[i]: lines[i] for i in names}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scan_fixture(name):
    """item dump of a fixture crate (self-test of the item rules)"""
    drv, files = setup()
    L = []
    for d in sorted({os.path.dirname(f) for f in files.values()}):
        L += ['-L', 'dependency=' + d]
    tmp = tempfile.mkdtemp(prefix='vx', dir=BUILD)
    try:
        env = dict(os.environ)
        env['VX_ALLOW'] = os.path.join(VERIF, 'engine/allow.txt')
        env['VX_OUT'] = os.path.join(tmp, 'i.json')
        env['VX_MODE'] = 'items'
        r = _run([drv, os.path.join(VERIF, 'fixtures', name + '.rs'), '--crate-name', name, '-o', os.path.join(tmp, 'l.rmeta')]
                 + FLAGS + ['--extern', 'rand=' + files['rand']] + L, env=env, cwd=VERIF)
        if r.returncode:
            raise BuildError('fixture does not build:\n' + r.stdout[-3000:])
        return json.load(open(env['VX_OUT']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        setup()
        print('ok')
    else:
        i, w = dump(sys.argv[1] if sys.argv[1] != '-' else None, items='items' in sys.argv)
        json.dump({'i': i, 'w': w}, open(sys.argv[2], 'w'), indent=1)
