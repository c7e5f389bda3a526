"""Random interpretation of value-graph normal forms (Gulwani/Necula style).

Used only as the second stage: two normal forms that are not identical are
compared on small-domain valuations of their free symbols, so that mere
incompleteness of the normaliser is never reported as a difference.
"""
import math, struct
import term as T
from term import N, TRUE, FALSE, sgn, fval

ARR = ("arr", 0)
nan, inf = float('nan'), float('inf')


class Reject(Exception):
    pass


class Unk(Exception):
    pass


M64 = (1 << 64) - 1


def mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        h ^= x & M64
        h = (h * 0xBF58476D1CE4E5B9) & M64
        h ^= h >> 29
        h = (h * 0x94D049BB133111EB) & M64
        h ^= h >> 32
    return h


DBL = [
    [0.0, 1.0, 2.0, 3.0, 4.0, -1.0, 0.5, 1.5],
    [1.0, 2.0, 3.0, 1.0, 2.0, 1.7, 2.9, 3.2],
    [0.25, -0.75, 7.5, 1e3, -3.0, 2.0, 2.0, 0.0],
    [1.0, 1.0005, 1.002, 2.0, -1.0, -1.0005, 0.0, 0.0004],
    [0.0, 1.0, -1.0, inf, nan, -inf, 2.0, 3.0],
    [1.0, 2.0, 3.0, 4.0, 5.0, 1.0, 2.0, 3.0],
    [1.0, 1.9995, 2.9995, 2.0, 3.9995, 1.4995, 1.0005, 2.5],
    [1.0, 1.99999999, 2.0, 2.99999999, 0.99999999, 3.0, 1.5, 2.49999999],
]
INTS = [
    [0, 1, 2, 3, 1, 2, -1, 4],
    [1, 2, 3, 1, 2, 3, 4, 5],
    [1, 1, 2, 2, 1, 3, 2, 1],
    [5, -3, 7, 2, 0, 1, -1, 2],
]
SIZES = [
    [0, 1, 2, 3, 4, 5, 2, 3],
    [1, 2, 3, 4, 2, 3, 4, 6],
    [2, 3, 4, 2, 3, 5, 6, 4],
    [1, 2, 1, 3, 2, 1, 4, 2],
]


BIG = [0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 20, 24, 30]


class Clo:
    """array term under an environment (state of a recurrence)"""
    __slots__ = ('arr', 'env', 'memo')

    def __init__(self, arr, env):
        self.arr, self.env, self.memo = arr, env, {}


NONLIN = ('fmul', 'fdiv', 'frem', 'call')
WIDE = [4294967297.0, 1.0, 4294967298.0, 2.0, 2147483649.0, 3.0, 4.0, 5.0]
EDGE = [1.7e308, -1.7e308, inf, 1.0, 5e-324, -inf, nan, 0.0]
FBIG = [1e6, 1e6 + 0.5, 1e6 + 1, -1e6, 1e6 + 2, 1e3, 1e6 + 0.0005, 2e6]


def guided(impl, spec):
    """valuation tables around the constants of two groups of terms (None: no constant to aim at)"""
    seen, fl, it, nonlin, odd = set(), set(), set(), False, False
    for roots, isspec in ((spec, True), (impl, False)):
        st = [(r, False) for r in roots if r is not None]
        while st:
            n, addr = st.pop()
            if (n, addr) in seen:
                continue
            seen.add((n, addr))
            op, a = n.op, n.args
            if op == 'cf':
                v = fval(n)
                if v == v and 4 < abs(v) < 1e12 or 1e-6 < abs(v) < 0.4:
                    fl.add(abs(v))
                odd = odd or abs(v) >= 1e12
            elif op == 'c':
                if not addr and n.ty[1] in (32, 64) and 4 < abs(a[0]) < 1 << 26:
                    it.add(abs(a[0]))
            else:
                odd = odd or op == 'fnan'
                if op == 'poly' and n.ty[1] in (32, 64) and not addr:
                    for k in (a[0],) + tuple(k for _, k in a[1]):
                        if 4 < abs(k) < 1 << 26:
                            it.add(abs(k))
                if isspec and op in NONLIN and not any(x.op == 'cf' for x in a if isinstance(x, N)) and not (op == 'call' and a[0] == 'fabs'):
                    nonlin = True
                st += [(x, op in ('sel', 'ptr', 'upd') and x.ty[0] == 'i') for x in T.walk(a)]
    if not it and not fl and nonlin:
        return None
    dbl = [DBL[4]] * (3 if odd and it else 0) + [EDGE] * odd
    if not nonlin:
        dbl += [FBIG, FBIG, WIDE]
        for c in sorted(fl)[:12]:
            dbl.append([c, c * 1.001, c + 0.5, -c, 2 * c, c * c, c * c + 1, c - 0.5])
    for k in sorted(it)[:12]:
        dbl.append([float(k), k + 1.0, k - 1.0, -float(k), k + 0.5, 2.0 * k, 2.0 * k + 1, 1.0])
    ks = sorted(it)[:16]
    ints = [[k, k + 1, k - 1, -k, 2 * k, 2 * k + 1, 1, 2] for k in ks]
    sizes = [[k, k + 1, k - 1, k + 2, k, 2 * k, 2 * k + 1, 2] for k in ks]
    return dbl, ints, sizes, [800000]


class Val:
    def __init__(self, seed, tabs=None):
        self.init(seed)
        if tabs:
            self.big = sum(tabs[2], []) or BIG
            self.room = min(max(self.big) + 8, 5000)
            self.budget = tabs[3]
            for attr, tab, salt in (('dp', tabs[0], 41), ('ip', tabs[1], 42), ('sp', tabs[2], 43)):
                if tab and mix(seed, salt) % (2 if attr == 'dp' else 4):
                    setattr(self, attr, tab[mix(seed, salt + 10) % len(tab)])

    def init(self, seed):
        self.big = BIG
        self.room = 0
        self.seed = seed
        self.memo = {}
        self.content_memo = {}
        self.salt = {}
        self.trace = None
        self.dp = DBL[mix(seed, 1) % len(DBL)]
        self.ip = INTS[mix(seed, 2) % len(INTS)]
        self.sp = SIZES[mix(seed, 3) % len(SIZES)]
        self.same = mix(seed, 4) % 5 == 0
        self.pnull = mix(seed, 5) % 4 == 0
        self.ptrue = (2, 4, 6)[mix(seed, 6) % 3]

    def long(self, c, cap):
        """may a loop of c passes be evaluated?"""
        if c > cap:
            if c > self.room or self.budget[0] < c:
                raise Reject('big')
            self.budget[0] -= c

    def isnull(self, k):
        key = (k, 'null', ('n', 1))
        if self.trace is not None:
            self.trace.append(key)
        return mix(self.seed, stable(k), 77, self.salt.get(key, 0)) % 3 == 0

    def pick(self, tab, *key):
        return tab[mix(self.seed, *key) % len(tab)]

    def content(self, b, idx, ty):
        key = (b, idx, ty)
        if self.trace is not None and ty[0] != 'p':
            self.trace.append(key)
        v = self.content_memo.get(key)
        if v is None:
            h = mix(stable(b), idx, {'i': 1, 'f': 2, 'p': 3}.get(ty[0], 4), ty[1], self.salt.get(key, 0))
            if ty[0] == 'f':
                v = self.pick(self.dp, h, 11)
            elif ty[0] == 'p':
                v = ('ptr', ('ldv', key), 0)
            elif ty[1] == 64:
                v = self.pick((self.sp, self.sp, (0, 1), self.big)[self.salt.get(key, 0) % 4], h, 12)
            elif ty[1] == 32:
                v = self.pick(self.ip, h, 13)
            elif ty[1] == 8:
                v = 1 if mix(self.seed, h, 14) % 8 < self.ptrue else 0
            elif ty[1] == 1:
                v = mix(self.seed, h, 14) % 8 < self.ptrue
            else:
                v = self.pick(self.ip, h, 15)
            self.content_memo[key] = v
        return v

    def admit(self, conjuncts, steps=90):
        """local repair (min-conflicts) of the valuation until every precondition holds"""
        n = len(conjuncts)
        ok, deps = [False] * n, [()] * n

        def check(j):
            self.trace = []
            self.memo = {}
            try:
                r = bool(self.ev(conjuncts[j], {}))
            except Reject:
                r = False
            tr, self.trace = self.trace, None
            return r, list(dict.fromkeys(tr))

        for j in range(n):
            ok[j], deps[j] = check(j)
        for step in range(steps):
            bad = [j for j in range(n) if not ok[j]]
            if not bad:
                self.memo = {}
                return True
            j = bad[mix(self.seed, step, 31) % len(bad)]
            if not deps[j]:
                break
            key = deps[j][mix(self.seed, step, 32) % len(deps[j])]
            hit = [i for i in range(n) if key in deps[i] or not ok[i]]
            base = sum(not ok[i] for i in hit)
            s0 = self.salt.get(key, 0)
            best = None
            for t in range(1, 5):
                self.salt[key] = s0 + t
                self.content_memo.pop(key, None)
                res = {i: check(i) for i in hit}
                c = sum(not r[0] for r in res.values())
                if best is None or c < best[0]:
                    best = (c, s0 + t, res)
                if c < base:
                    break
            if best[0] <= base or mix(self.seed, step, 33) % 6 == 0:
                self.salt[key] = best[1]
                for i, r in best[2].items():
                    ok[i], deps[i] = r
            else:
                self.salt[key] = s0
            self.content_memo.pop(key, None)
        self.memo = {}
        return all(ok)

    # -------------------------------------------------------------- eval
    def ev(self, n, env):
        op = n.op
        if op == 'c':
            return bool(n.args[0]) if n.ty[1] == 1 else n.args[0]
        if op == 'cf':
            return fval(n)
        if op == 'bv':
            if n not in env:
                raise Unk('free ' + str(n.args))
            return env[n]
        if n.fv:
            key = (n,) + tuple([env.get(b) for b in fvlist(n)])
        else:
            key = n
        m = self.memo
        if key in m:
            r = m[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self.ev1(n, env)
        except (Unk, Reject) as e:
            m[key] = e
            raise
        m[key] = r
        return r

    def ev1(self, n, env):
        op, a = n.op, n.args
        ev = self.ev
        if op == 'ite':
            while n.op == 'ite':
                n = n.args[1] if ev(n.args[0], env) else n.args[2]
            return ev(n, env)
        if op == 'poly':
            s = a[0]
            for mono, k in a[1]:
                t = k
                for x in mono:
                    t *= ev(x, env)
                s += t
            return sgn(s, n.ty[1])
        if op == 'eq0':
            return ev(a[0], env) == 0
        if op == 'ult':
            w = a[0].ty[1]
            mk = (1 << w) - 1
            return (ev(a[0], env) & mk) < (ev(a[1], env) & mk)
        if op == 'slt':
            return ev(a[0], env) < ev(a[1], env)
        if op == 'folt':
            return ev(a[0], env) < ev(a[1], env)
        if op == 'fole':
            return ev(a[0], env) <= ev(a[1], env)
        if op == 'foeq':
            return ev(a[0], env) == ev(a[1], env)
        if op == 'fnan':
            return math.isnan(ev(a[0], env))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = ev(a[0], env), ev(a[1], env)
            return fop(op, x, y)
        if op == 'fneg':
            return -ev(a[0], env)
        if op in ('sext',):
            return ev(a[0], env)
        if op == 'zext':
            v = ev(a[0], env)
            return int(v) & ((1 << a[0].ty[1]) - 1)
        if op == 'trunc':
            return sgn(ev(a[0], env), n.ty[1])
        if op == 'sitofp':
            return float(ev(a[0], env))
        if op == 'uitofp':
            return float(ev(a[0], env) & ((1 << a[0].ty[1]) - 1))
        if op in ('fptosi', 'fptoui'):
            x = ev(a[0], env)
            # (an unsigned 32-bit target: the low half of the 64-bit conversion, as compiled)
            if x != x or abs(x) > 2 ** ((64 if op == 'fptoui' else n.ty[1]) - 1) or op == 'fptoui' and x <= -1:
                raise Reject('fp->int range')
            return sgn(int(x), n.ty[1])
        if op in ('fpext', 'fptrunc'):
            x = ev(a[0], env)
            return struct.unpack('f', struct.pack('f', x))[0] if op == 'fptrunc' and abs(x) < 1e38 else x
        if op in ('udiv', 'urem'):
            w = n.ty[1]
            mk = (1 << w) - 1
            x, y = ev(a[0], env) & mk, ev(a[1], env) & mk
            if y == 0:
                raise Reject('div0')
            return sgn(x // y if op == 'udiv' else x % y, w)
        if op in ('sdiv', 'srem'):
            x, y = ev(a[0], env), ev(a[1], env)
            if y == 0:
                raise Reject('div0')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q if op == 'sdiv' else x - q * y
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'wadd', 'wsub', 'wmul', 'wshl'):
            w = n.ty[1]
            mk = (1 << w) - 1
            x, y = ev(a[0], env), ev(a[1], env)
            if op[-2:] in ('hl', 'hr') and not 0 <= y < w:
                raise Reject('shift')
            r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'wshl': lambda: x << y,
                 'lshr': lambda: (x & mk) >> y, 'ashr': lambda: x >> y, 'wadd': lambda: x + y, 'wsub': lambda: x - y,
                 'wmul': lambda: x * y}[op]()
            return sgn(r, w)
        if op == 'sel':
            return self.read(a[0], ev(a[1], env), n.ty, env)
        if op == 'call':
            return mathcall(self, a[0], [ev(x, env) for x in a[1:]], n.ty)
        if op == 'ptr':
            return ('ptr', self.bkey(a[0], env), ev(a[1], env))
        if op == 'paddr':
            return stable(self.bkey(a[0], env)) & 0xFFFFFFFFF0
        if op == 'isnull':
            if not self.pnull:
                return False
            return self.isnull(self.bkey(a[0], env))
        if op in ('peq', 'peqx'):
            return self.bkey(a[0], env) == self.bkey(a[1], env)
        if op == 'undef':
            return self.content(n.id, 0, n.ty)
        if op == 'any':
            (b,), cnt, body = a
            c = ev(cnt, env) & M64
            self.long(c, 80)
            e2 = dict(env)
            for j in range(c):
                e2[b] = j
                if ev(body, e2):
                    return True
            return False
        if op == 'sum':
            (b,), cnt, body = a
            c = ev(cnt, env) & M64
            self.long(c, 200)
            e2 = dict(env)
            s = 0
            for j in range(c):
                e2[b] = j
                s += ev(body, e2)
            return sgn(s, n.ty[1])
        if op == 'first':
            (b,), body = a
            e2 = dict(env)
            for j in range(120 + self.room):
                e2[b] = j
                if ev(body, e2):
                    self.long(j, 120)
                    return j
            raise Reject('unbounded')
        if op == 'rec':
            bs, cnt, inits, nexts = a
            c = ev(cnt, env) & M64
            self.long(c, 120)
            st = [self.sv(x, env) for x in inits]
            for j in range(c):
                e2 = dict(env)
                e2[bs[0]] = j
                for b, v in zip(bs[1:], st):
                    e2[b] = v
                st = [self.sv(x, e2) for x in nexts]
            return st[0]
        if op == 'unk':
            raise Unk(str(a[1]))
        if op == 'fpclass':
            x = ev(a[1], env)
            m = a[0]
            k = 3 if x != x else 512 if x == inf else 4 if x == -inf else 0
            return bool(m & k)
        raise Unk(op)

    def sv(self, x, env):
        if x.ty != ARR:
            return self.ev(x, env)
        return Clo(x, env) if x.op != 'rec' else self.ev(x, env)

    def bkey(self, b, env):
        k = b.args[0]
        if k == 'ld':
            v = self.ev(b.args[1], env)
            return v[1] if isinstance(v, tuple) else ('int', v)
        return tuple(self.ev(x, env) if isinstance(x, N) else x for x in b.args)

    def read(self, arr, i, ty, env):
        while True:
            op, a = arr.op, arr.args
            if op == 'A.init':
                b = a[0]
                if b.args[0] == 'ld':
                    return self.content(stable(self.bkey(b, env)), i, ty)
                return self.content(stable(self.bkey(b, env)), i, ty)
            if op == 'A.undef':
                return self.content(stable(('undef', id(self), self.bkey(a[0], env))), i, ty)
            if op == 'A.nil':
                return None
            if op == 'A.store':
                prev, off, val, size = a
                if self.ev(off, env) == i:
                    return self.cv(self.ev(val, env), val.ty, ty)
                arr = prev
                continue
            if op == 'A.mux':
                arr = a[1] if self.ev(a[0], env) else a[2]
                continue
            if op == 'A.fill':
                (k,), prev, start, stride, count, val, size = a
                d = i - self.ev(start, env)
                st = stride.args[0]
                if d % st == 0:
                    q = d // st
                    c = self.ev(count, env) & M64
                    if c > 1 << 20:
                        raise Reject('big')
                    if 0 <= q < c:
                        e2 = dict(env)
                        e2[k] = q
                        return self.cv(self.ev(val, e2), val.ty, ty)
                arr = prev
                continue
            if op == 'A.loop':
                (k,), prev, count, effs = a
                c = self.ev(count, env) & M64
                self.long(c, 80)
                e2 = dict(env)
                hit = None
                for j in range(c - 1, -1, -1):
                    e2[k] = j
                    for e in reversed(effs):
                        if not self.ev(e[0], e2):
                            continue
                        if e[1] == 'w':
                            if self.ev(e[2], e2) == i:
                                hit = self.cv(self.ev(e[3], e2), e[3].ty, ty)
                                break
                        else:
                            hit = self.read(e[2], i, ty, e2)
                            if hit is not None:
                                break
                    if hit is not None:
                        return hit
                arr = prev
                continue
            if op == 'A.copy':
                prev, dst, src, soff, ln = a
                d = i - self.ev(dst, env)
                if 0 <= d < (self.ev(ln, env) & M64):
                    i = self.ev(soff, env) + d
                    arr = src
                else:
                    arr = prev
                continue
            if op == 'A.set':
                prev, dst, byte, ln = a
                d = i - self.ev(dst, env)
                if 0 <= d < (self.ev(ln, env) & M64):
                    if self.ev(byte, env) != 0:
                        raise Unk('memset')
                    return 0.0 if ty[0] == 'f' else 0
                arr = prev
                continue
            if op == 'bv' and arr in env or op == 'rec':
                c = env[arr] if op == 'bv' else self.ev(arr, env)
                key = (i, ty)
                if key not in c.memo:
                    c.memo[key] = self.read(c.arr, i, ty, c.env)
                return c.memo[key]
            raise Unk(op)

    def cv(self, v, a, b):
        if a == b:
            return v
        if a[0] == 'i' and b[0] == 'i':
            return sgn(int(v) & ((1 << a[1]) - 1), b[1]) if b[1] > 1 else bool(v & 1)
        raise Unk('conv')


_fl = {}


def fvlist(n):
    r = _fl.get(n)
    if r is None:
        r = _fl[n] = sorted(n.fv, key=lambda b: b.id)
    return r


_st = {}


def stable(k):
    """deterministic integer for a nested key"""
    if k.__class__ is int:
        return k & M64
    if k.__class__ is tuple:
        r = _st.get(k)
        if r is None or _st_types(k):
            r = mix(99, *[stable(x) for x in k])
            if not _st_types(k):
                _st[k] = r
        return r
    if isinstance(k, int):
        return k & M64
    if isinstance(k, str):
        return mix(*k.encode()) if k else 5
    if isinstance(k, float):
        return struct.unpack('>Q', struct.pack('>d', k))[0]
    return 3


def _st_types(k):
    """1 == 1.0 == True would share a cache entry"""
    for x in k:
        if x.__class__ is tuple:
            if _st_types(x):
                return True
        elif x.__class__ is not int and x.__class__ is not str:
            return True
    return False


def fop(op, x, y):
    try:
        if op == 'fadd':
            return x + y
        if op == 'fsub':
            return x - y
        if op == 'fmul':
            return x * y
        if op == 'fdiv':
            if y == 0:
                if x != x or x == 0:
                    return nan
                return math.copysign(inf, x) * math.copysign(1, y)
            return x / y
        return math.fmod(x, y)
    except (OverflowError, ValueError):
        return nan


def mathcall(V, nm, xs, ty):
    f = getattr(math, nm, None) if nm not in ('abs', 'round') else None
    if nm.startswith('vf_pure') or f is None:
        h = stable((nm,) + tuple(xs))
        if ty[0] == 'f':
            return V.pick(V.dp, h, 21) if nm.startswith('vf_pure') else (h % 1000003) / 1000.0
        if ty[1] == 1:
            return bool(mix(V.seed, h) & 1)
        if nm == 'abs':
            return abs(xs[0])
        if ty[1] == 64:
            return V.pick(V.sp, h, 22)
        if ty[1] == 8:
            return V.pick([0, 1], h, 22)
        return V.pick(V.ip, h, 22)
    try:
        r = f(*xs)
        return float(r) if ty[0] == 'f' else r
    except OverflowError:
        return inf
    except (ValueError, ZeroDivisionError):
        if nm == 'log' and xs[0] == 0:
            return -inf
        if nm in ('floor', 'ceil', 'trunc'):
            return xs[0]
        return nan


def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        if x != x or y != y:
            return (x != x) == (y != y)
        if x == y:
            return True
        if math.isinf(x) or math.isinf(y):
            return False
        return abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-3)
    return x == y
