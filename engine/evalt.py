"""Evaluation of abstract terms under an assignment of the inputs.

Used to confirm that two abstract values that have different normal forms are
really different functions (there is an input on which they disagree), so that
a mere difference in form is never reported.
"""
import time, math, random, struct
from fractions import Fraction
from terms import *
import terms


class Unknown(Exception):
    pass


class Undefined(Exception):
    """outside the domain (division by zero, root of a negative number, ...)"""


class Mat:
    """2x2 rational matrices: a non-commutative ring"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __add__(self, o):
        return Mat(tuple(x + y for x, y in zip(self.v, o.v)))

    def __mul__(self, o):
        a, b, c, d = self.v
        e, f, g, h = o.v
        return Mat((a * e + b * g, a * f + b * h, c * e + d * g, c * f + d * h))

    def scale(self, k):
        return Mat(tuple(x * k for x in self.v))

    def inv(self):
        a, b, c, d = self.v
        det = a * d - b * c
        if det == 0:
            raise Undefined()
        det = Fraction(det)
        return Mat((d / det, -b / det, -c / det, a / det))

    def __eq__(self, o):
        return self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'M%r' % (self.v,)


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class Ev:
    def __init__(self, dom, rnd, trial, ints):
        self.dom = dom            # 'nc' | 'real' | 'free'
        self.rnd = rnd
        self.trial = trial
        self.ints = dict(ints)
        self.memo = {}
        self.names = {}
        self.calls = {}
        self.density = None
        self.hots = None
        self.hot = None
        self.far = 0              # the largest constant: sums and quantifiers reach beyond it
        self.partial = False      # look past undetermined cases (for hints only)

    # ------------------------------------------------------------- samples
    def sample(self, key):
        r = self.names.get(key)
        if r is None:
            r = None
            if self.dom == 'nc' and self.trial % 4 == 3 and self.hots and key[0] == 'in' and key[2]:
                # a few places only: the ends, and the neighbourhood of constants
                if self.hot is None:
                    self.hot = self.rnd.choice(self.hots) if self.rnd.random() < 0.4 else -1
                if self.hot >= 0:
                    on = self.hot in key[2] and self.rnd.random() < 0.6
                    r = Mat((1, 0, 0, 1)) if on else Mat((0, 0, 0, 0))
            if r is None:
                r = self._sample()
            self.names[key] = r
        return r

    def _sample(self):
        rn, t = self.rnd, self.trial % 4
        if self.dom == 'nc':
            if t == 1:
                return rn.choice([Mat((0, 0, 0, 0)), Mat((1, 0, 0, 1)), Mat((-1, 0, 0, -1)), Mat((0, 1, 0, 0)), Mat((0, 0, 1, 0))])
            if t == 3:      # almost everything agrees
                if self.density is None:
                    self.density = rn.choice((0.15, 0.15, 0.04, 0.0))
                return Mat((0, 0, 0, 0)) if rn.random() >= self.density else Mat((1, 0, 0, 1))
            return Mat(tuple(rn.randint(-3, 3) for _ in range(4)))
        if self.dom == 'real':
            if t == 1:
                return float(rn.choice([0, 1, -1, 2, -2, 0.5, 3]))
            if t == 2:
                return rn.choice([-1, 1]) * math.exp(rn.uniform(-5, 5))
            return rn.uniform(-3, 3)
        raise Unknown('sample')

    # ------------------------------------------------------------- integers
    def P(self, p, env):
        r = 0
        for m, c in p.a:
            t = c
            for at in m:
                t *= self.iatom(at, env)
            r += t
        return r

    def iatom(self, at, env):
        a = at.a
        kd = a[1]
        if at in env:
            return env[at]
        if kd == 'sym':
            nm = a[2]
            if nm in self.ints:
                return self.ints[nm]
            if '~' in nm or nm.startswith('havoc'):
                raise Unknown(nm)
            r = self.ints[nm] = self.rnd.randint(0, 4)
            return r
        if kd == 'idiv':
            x, y = self.P(a[2], env), self.P(a[3], env)
            if y <= 0:
                raise Undefined()
            return x // y
        if kd == 'imod':
            x, y = self.P(a[2], env), self.P(a[3], env)
            if y <= 0:
                raise Undefined()
            return x % y
        if kd == 'imin':
            return min(self.P(a[2], env), self.P(a[3], env))
        if kd == 'imax':
            return max(self.P(a[2], env), self.P(a[3], env))
        if kd == 'first':
            allS = a[3]
            if not (len(allS.a) == 3 and allS.a[1] is TRUE and allS.a[2] is FALSE and allS.a[0].a[1] == 'forall'):
                raise Unknown('first')
            bd, e2 = bound(allS.a[0].a[2]), dict(env)
            for i in range(600):
                e2[bd] = i
                if not self.B(allS.a[0].a[3], e2):
                    return i
            raise Unknown('first')
        if kd == 'iapp':
            if '~' in str(a[2]):
                raise Unknown(a[2])
            k = ('iapp', a[2], self.args(a[3], env))
            if k not in self.names:
                self.names[k] = self.rnd.randint(0, 4)
            return self.names[k]
        raise Unknown(kd)

    def args(self, xs, env):
        return tuple(self.key(self.val(x, env)) if isinstance(x, N) else x for x in xs)

    def key(self, v):
        if isinstance(v, float):
            return round(v, 9)
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        return v

    # ------------------------------------------------------------- booleans
    def B(self, b, env):
        while len(b.a) == 3:
            b = b.a[1] if self.batom(b.a[0], env) else b.a[2]
        return b is TRUE

    def batom(self, at, env):
        a = at.a
        kd = a[1]
        if kd == 'ge0':
            return self.P(a[2], env) >= 0
        if kd == 'eq0':
            return self.P(a[2], env) == 0
        if kd == 'rel':
            x, y = self.val(a[3], env), self.val(a[4], env)
            if a[2] == 'eq':
                return self.close(x, y)
            if self.dom != 'real':
                raise Unknown('order')
            return x < y if a[2] == 'lt' else x <= y
        if kd == 'forall':
            lv, body = a[2], a[3]
            bd = bound(lv)
            env = dict(env)
            for i in range(0, self.top()):
                env[bd] = i
                if not self.B(body, env):
                    return False
            return True
        if kd in ('in', 'app'):
            k = (kd, a[2], self.args(a[3], env))
            if k not in self.names:
                self.names[k] = self.rnd.random() < 0.5
            return self.names[k]
        raise Unknown(kd)

    def top(self):
        return max(3 * max([4] + [v for v in self.ints.values()]) + 8, self.far + 3)

    def close(self, x, y):
        if isinstance(x, float):
            return abs(x - y) <= 1e-12 * max(1.0, abs(x), abs(y))
        return x == y

    # ------------------------------------------------------------- elements
    def zero(self):
        return Mat((0, 0, 0, 0)) if self.dom == 'nc' else 0.0

    def one(self):
        return Mat((1, 0, 0, 1)) if self.dom == 'nc' else 1.0

    def E(self, e, env):
        r = self.zero()
        for w, c in e.a:
            t = self.one()
            for at in w:
                t = t * self.eatom(at, env)
            t = t.scale(Fraction(c)) if self.dom == 'nc' else t * float(c)
            r = r + t
        if self.dom == 'real' and (math.isnan(r) or math.isinf(r) or abs(r) > 1e12):
            raise Undefined()
        return r

    def power(self, b, n):
        if n < 0:
            b = self.inverse(b)
            n = -n
        r = self.one()
        for _ in range(n):
            r = r * b
        return r

    def inverse(self, x):
        if self.dom == 'nc':
            return x.inv()
        if abs(x) < 1e-9:
            raise Undefined()
        return 1.0 / x

    def eatom(self, at, env):
        a = at.a
        kd = a[1]
        if kd == 'in':
            return self.sample(('in', a[2], self.args(a[3], env)))
        if kd == 'app':
            vs = [self.val(x, env) if isinstance(x, N) else x for x in a[3]]
            if self.dom == 'real':
                f = REAL.get(a[2])
                if f is not None:
                    try:
                        return float(f(*vs))
                    except (ValueError, OverflowError, ZeroDivisionError):
                        raise Undefined()
            return self.sample(('app', a[2], tuple(self.key(v) for v in vs)))
        if kd == 'pow':
            b = self.E(a[2].a[2], env) if a[2].a[1] == 'poly' else self.eatom(a[2], env)
            return self.power(b, self.P(a[3], env))
        if kd == 'poly':
            return self.E(a[2], env)
        if kd == 'inv':
            return self.inverse(self.E(a[2], env))
        if kd == 'sum':
            lv, cond, body = a[2], a[3], a[4]
            bd = bound(lv)
            env = dict(env)
            r = self.zero()
            for i in range(0, self.top()):
                env[bd] = i
                if self.B(cond, env):
                    r = r + self.E(body, env)
            return r
        raise Unknown(kd)

    # ------------------------------------------------------------- values
    def val(self, v, env):
        k = v.k
        if k == 'E':
            return self.E(v, env)
        if k == 'P':
            return self.P(v, env)
        if k == 'B':
            return self.B(v, env)
        if k == 'atom':
            return self.eatom(v, env)
        if k == 'G':
            skipped = None
            for l, c in v.a[0]:
                try:
                    yes = self.B(c, env)
                except Unknown as ex:
                    if not self.partial:
                        raise
                    skipped = ex
                    continue
                if yes:
                    return self.val(l, env)
            if skipped:
                raise skipped
            raise Undefined()
        if k == 'Agg':
            if len(v.a[1]) == 1:      # a newtype is its content
                return self.val(v.a[1][0], env)
            return ('agg',) + tuple(self.val(x, env) for x in v.a[1])
        if k == 'Enum':
            for vi, c, f in v.a[1]:
                if self.B(c, env):
                    return ('variant', vi) + tuple(self.val(x, env) for x in f)
            raise Undefined()
        if k == 'Seq':
            n = self.P(seqlen(v), env)
            if n > 430 or n < 0:
                raise Undefined()
            return ('seq',) + tuple(self.val(seqat(v, pc(i)), env) for i in range(n))
        raise Unknown(k)


def _asin(x):
    return math.asin(x)


REAL = {
    'sqrt': math.sqrt, 'abs': abs, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'ln': math.log,
    'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'asin': _asin, 'acos': math.acos, 'atan': math.atan,
    'atan2': math.atan2, 'euler': lambda: math.e, 'pi': lambda: math.pi, 'hypot': math.hypot, 'log2': math.log2, 'log10': math.log10,
    'exp2': lambda x: 2.0 ** x, 'powf': lambda x, y: x ** y, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
    'ln_1p': math.log1p, 'exp_m1': math.expm1,
}


class Ieee(Ev):
    """floating point evaluation in the precision of each operation; values are (bits, float)"""
    LIB = None

    def __init__(self, dom, rnd, trial, ints):
        Ev.__init__(self, dom, rnd, trial, ints)
        self.w = int(dom[4:])

    def _sample(self):
        rn, t, k = self.rnd, self.trial, len(self.names)
        if t < len(SPECIAL) ** 2:
            x = SPECIAL[(t // len(SPECIAL) ** k) % len(SPECIAL)]
        else:
            c = t % 4
            if c == 0:
                b = rn.getrandbits(64)
                x = struct.unpack('<d', struct.pack('<Q', b))[0]
                if self.w == 32:
                    x = struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]
            elif c == 1:
                x = rn.choice([-1, 1]) * math.exp(rn.uniform(-40, 40))
            elif c == 2:
                x = rn.uniform(-1, 1)
            else:
                x = rn.uniform(-20, 20)
        return self.mkf(x)

    def mkf(self, x, w=None):
        w = w or self.w
        return (w, f32(x) if w == 32 and not math.isnan(x) else x)

    def key(self, v):
        return (v[0], struct.pack('<d', v[1])) if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], float) else v

    def E(self, e, env):
        if len(e.a) == 1 and e.a[0][1] == 1 and len(e.a[0][0]) == 1:
            return self.eatom(e.a[0][0][0], env)
        raise Unknown('polynomial')

    def batom(self, at, env):
        a = at.a
        if a[1] == 'rel':
            x, y = self.val(a[3], env), self.val(a[4], env)
            if not (isinstance(x, tuple) and isinstance(y, tuple)):
                raise Unknown('rel')
            x, y = x[1], y[1]
            return x == y if a[2] == 'eq' else x < y if a[2] == 'lt' else x <= y
        if a[1] == 'app':
            n = a[2].split('::')[-1]
            x = self.val(a[3][0], env)[1]
            if n == 'is_sign_negative':
                return math.copysign(1, x) < 0
            if n == 'is_sign_positive':
                return math.copysign(1, x) > 0
            if n == 'is_infinite':
                return math.isinf(x)
            if n == 'is_finite':
                return math.isfinite(x)
        if a[1] == 'in':
            raise Unknown('in')
        return Ev.batom(self, at, env)

    def eatom(self, at, env):
        a = at.a
        if a[1] == 'in':
            return self.sample(('in', a[2], self.args(a[3], env)))
        if a[1] != 'app':
            raise Unknown(a[1])
        f = a[2]
        if f == 'fc':
            b, n = int(a[3][0]), int(a[3][1])
            return (n * 8, struct.unpack('<f' if n == 4 else '<d', struct.pack('<I' if n == 4 else '<Q', b))[0])
        vs = [self.val(x, env) if isinstance(x, N) else x for x in a[3]]
        if f == 'itof':
            return self.mkf(float(vs[0]))
        if f.startswith('float cast '):
            return self.mkf(vs[0][1], int(f[-2:]))
        if f in ('zero', 'one') and not vs:
            return self.mkf(float(f == 'one'))
        if any(not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], float)) for v in vs) or not vs:
            raise Unknown(f)
        w = vs[0][0]
        if any(v[0] != w for v in vs):
            raise Unknown('mixed precision')
        xs = [v[1] for v in vs]
        n = f
        if '::' in f:
            t, n = f.split('::')
            if t != 'f%d' % w:
                raise Unknown(f)
        r = self.fop(n, xs, w)
        return (w, f32(r) if w == 32 and not math.isnan(r) else r)

    def lib(self, n, xs, w):
        import ctypes
        if Ieee.LIB is None:
            Ieee.LIB = ctypes.CDLL('libm.so.6')
        c = ctypes.c_float if w == 32 else ctypes.c_double
        g = getattr(Ieee.LIB, n + ('f' if w == 32 else ''))
        g.restype, g.argtypes = c, [c] * len(xs)
        return g(*xs)

    LIBM = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2', 'exp': 'exp', 'ln': 'log',
            'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'exp2': 'exp2', 'exp_m1': 'expm1', 'ln_1p': 'log1p', 'log2': 'log2', 'log10': 'log10',
            'powf': 'pow', 'hypot': 'hypot', 'cbrt': 'cbrt', 'sqrt': 'sqrt', 'mul_add': 'fma', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc'}

    def fop(self, n, xs, w):
        x = xs[0]
        y = xs[1] if len(xs) > 1 else None
        if n in self.LIBM:
            return self.lib(self.LIBM[n], xs, w)
        if n == 'neg':
            return -x
        if n == 'abs':
            return math.copysign(x, 1.0)
        if n == 'add':
            return x + y
        if n == 'sub':
            return x - y
        if n == 'mul':
            return x * y
        if n in ('div', 'recip'):
            if n == 'recip':
                x, y = 1.0, x
            if y == 0:
                if x == 0 or math.isnan(x):
                    return math.nan
                return math.copysign(math.inf, math.copysign(1, x) * math.copysign(1, y))
            return x / y
        if n == 'copysign':
            return math.copysign(x, y)
        if n == 'signum':
            return x if math.isnan(x) else math.copysign(1.0, x)
        if n == 'log':
            p, q = self.fop('ln', [x], w), self.fop('ln', [y], w)
            return self.fop('div', [p, q], w)
        if n == 'clamp':
            return y if x < y else xs[2] if x > xs[2] else x
        if n in ('max', 'min'):
            if math.isnan(x) or math.isnan(y):
                return y if math.isnan(x) else x
            if x == y and x == 0 and math.copysign(1, x) != math.copysign(1, y):
                raise Unknown('sign of zero')
            return max(x, y) if n == 'max' else min(x, y)
        raise Unknown(n)


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 1e-40, 1e-30, -1e-30, 1e-8, -1e-8, 1e-3, 0.999999, 1.0000001,
           3.141592653589793, -3.141592653589793, 1.5707963267948966, 10.0, -10.0, 25.0, -25.0, 88.0, -88.0, 90.0, 100.0, 700.0, -700.0, 709.5, 711.0, 1e10, -1e10, 1e20, 1e30, 3e38, 1e300, -1e300]


def differs(x, y):
    """clearly different results"""
    if isinstance(x, tuple) and isinstance(y, tuple):
        if x[:1] != y[:1] or (len(x) != len(y) and x[:1] == ('agg',)):
            raise Unknown('representation')
        if len(x) != len(y):
            return True
        return any([differs(a, b) for a, b in zip(x, y)])
    if isinstance(x, float) and isinstance(y, float):
        return abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y))
    if isinstance(x, tuple) or isinstance(y, tuple):
        raise Unknown('representation')
    return x != y


def _names(v, out, seen):
    if not isinstance(v, N):
        if type(v) is tuple:
            for x in v:
                _names(x, out, seen)
        return
    if v in seen:
        return
    seen.add(v)
    if v.k == 'atom' and v.a[1] == 'sym':
        out.add(v.a[2])
    for x in v.a:
        _names(x, out, seen)


def _consts(v, out, seen):
    """integer constants of conditions and positions"""
    if type(v) is tuple:
        for x in v:
            _consts(x, out, seen)
        return
    if not isinstance(v, N) or v in seen:
        return
    seen.add(v)
    if v.k == 'P':
        for m, c in v.a:
            if not m and 3 < abs(c) <= 1100:
                out.add(abs(int(c)))
    for x in v.a:
        _consts(x, out, seen)


def counterexample(a, b, pre=TRUE, dom='nc', ints=None, trials=400, seed=1, intvals=None, want=None, partial=False):
    """an assignment satisfying pre on which a and b differ; (ints, names, va, vb) or None.
    want: instead of comparing, find an assignment on which the condition a holds"""
    rnd = random.Random(seed)
    names = set()
    for v in (a, b, pre):
        if v is not None:
            _names(v, names, set())
    names = sorted(n for n in names if '~' not in n and not n.startswith('havoc'))
    tried = unknown = 0
    # sizes around the constants that occur, after the small ones
    pool = set()
    for v in (a, b, pre):
        if v is not None:
            _consts(v, pool, set())
    near0 = sorted(pool)[:40]
    far = max([v for v in pool if v <= 300], default=0)
    big = sorted({w for c in pool if c > 21 for w in (c, c + 1)})
    pool = sorted({w for c in pool for w in (c - 1, c, c + 1, c + 2, 2 * c + 1) if 4 < w <= 45})
    n3 = trials * (3 if pool else 1)
    t0 = None
    for t in range(n3 + (400 if big else 0)):
        iv = dict(ints or {})
        if t >= n3:
            if t0 is None:
                t0 = time.time()
            if time.time() - t0 > 6:
                break
            near = rnd.choice(big)
            for n in names:
                if n not in iv and not (intvals and n in intvals) and rnd.random() < 0.7:
                    iv[n] = near + rnd.choice((-1, 0, 0, 1, 1, 2))
        elif t >= trials:
            mix = rnd.choice((0.3, 0.6, 0.9))
            near = rnd.choice(pool)
            for n in names:
                if n not in iv and not (intvals and n in intvals) and rnd.random() < mix:
                    iv[n] = max(0, rnd.choice((near, near + rnd.choice((-1, 0, 1)), rnd.choice(pool))))
        for n in names:
            if n not in iv:
                if intvals and n in intvals:
                    iv[n] = rnd.choice(intvals[n])
                else:
                    iv[n] = rnd.choice([0, 1, 2, 2, 3, 3, 4])
        e = (Ieee if dom.startswith('ieee') else Ev)(dom, rnd, t, iv)
        e.partial = partial
        e.far = far
        if dom == 'nc' and t % 4 == 3:
            e.hots = sorted({w for v in list(iv.values()) + near0 for w in (v - 1, v, v + 1) if type(w) is int and 0 <= w <= 2000})
        try:
            if not e.B(pre, {}):
                continue
            if want:
                if e.B(a, {}):
                    return iv, e.names, True, None
                continue
            x, y = e.val(a, {}), e.val(b, {})
        except Undefined:
            continue
        except (Unknown, RecursionError):
            unknown += 1
            if unknown > 200 + 4 * tried or partial is False:
                return None
            continue
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        tried += 1
        if dom.startswith('ieee'):
            if x[0] != y[0]:
                return None
            if math.isnan(x[1]) != math.isnan(y[1]) or (not math.isnan(x[1]) and struct.pack('<d', x[1]) != struct.pack('<d', y[1])):
                return iv, e.names, x, y
            continue
        try:
            if differs(x, y):
                return iv, e.names, x, y
        except Unknown:
            return None
    return None
