"""Hash-consed value-graph terms.

A *node* is either an `ite` decision node (atom, hi, lo) -- multi-terminal
decision diagrams over canonical comparison atoms -- or an ite-free term.
Integers are kept as polynomials modulo 2^w over opaque atoms, floats as
uninterpreted operator trees (commutative operators sorted), so two programs
that compute the same value flow share one node.
"""
import struct
from math import gcd, isnan

TAB = {}
NEXT = [0]
LIMIT = [400000]


class Blowup(Exception):
    pass


class N:
    __slots__ = ('op', 'ty', 'args', 'id', 'fv', 'lvl', 'unk', 'sz')

    def __repr__(self):
        return show(self)


EMPTY = frozenset()
BINDERS = {'any', 'sum', 'first', 'rec', 'A.fill', 'A.loop', 'EvLoop', 'fold'}


def walk(a):
    if isinstance(a, N):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            if isinstance(x, N):
                yield x
            elif isinstance(x, tuple):
                yield from walk(x)


def mk(op, ty, *args):
    key = (op, ty, args)
    n = TAB.get(key)
    if n is not None:
        return n
    n = N()
    n.op, n.ty, n.args = op, ty, args
    n.id = NEXT[0]
    NEXT[0] += 1
    if NEXT[0] > LIMIT[0]:
        raise Blowup('term table')
    fv = set()
    lvl = 0
    unk = op == 'unk'
    for c in walk(args):
        fv |= c.fv
        if c.lvl > lvl:
            lvl = c.lvl
        unk = unk or c.unk
    if op == 'bv':
        fv = {n}
    elif op in BINDERS:
        for b in args[0]:
            fv.discard(b)
            if isinstance(b.args[0], int):
                lvl = max(lvl, b.args[0])
        lvl = max(lvl, 1)
    n.fv = frozenset(fv) if fv else EMPTY
    n.lvl = lvl
    n.unk = unk
    TAB[key] = n
    return n


B1 = ('i', 1)
I64 = ('i', 64)
I32 = ('i', 32)
F64 = ('f', 64)
PTR = ('p', 64)
TRUE = mk('c', B1, 1)
FALSE = mk('c', B1, 0)


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) and w > 1 else v


def const(ty, v):
    if ty[0] == 'i':
        if ty[1] == 1:
            return TRUE if v & 1 else FALSE
        return mk('c', ty, sgn(v, ty[1]))
    raise ValueError


def fconst(x, ty=F64):
    return mk('cf', ty, struct.pack('>d', x))


def fval(n):
    return struct.unpack('>d', n.args[0])[0]


_unk = [0]


def unk(ty, why=''):
    _unk[0] += 1
    return mk('unk', ty, _unk[0], why)


_bv = [0]


def fresh_bv(ty=I64, tag='k'):
    _bv[0] += 1
    return mk('bv', ty, '%s%d' % (tag, _bv[0]))


def canon_bv(ty, lvl, j=0):
    return mk('bv', ty, lvl, j)


# ------------------------------------------------------------------ MTBDD
MEMO = {}


def is_ite(n):
    return n.op == 'ite'


def top(n):
    return n.args[0] if n.op == 'ite' else None


def cof(n, a, v):
    if n.op == 'ite' and n.args[0] is a:
        return n.args[1] if v else n.args[2]
    return n


def raw_ite(a, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', hi.ty, a, hi, lo)


def ITE(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    if f.op != 'ite':
        f = raw_ite(f, TRUE, FALSE)
    key = ('ITE', f, g, h)
    r = MEMO.get(key)
    if r is not None:
        return r
    a = f.args[0]
    for x in (g, h):
        if x.op == 'ite' and x.args[0].id < a.id:
            a = x.args[0]
    r = raw_ite(a, ITE(cof(f, a, 1), cof(g, a, 1), cof(h, a, 1)),
                ITE(cof(f, a, 0), cof(g, a, 0), cof(h, a, 0)))
    MEMO[key] = r
    return r


def AND(a, b):
    return ITE(a, b, FALSE)


def OR(a, b):
    return ITE(a, TRUE, b)


def NOT(a):
    return ITE(a, FALSE, TRUE)


def atom(op, *args):
    """a boolean atom as BDD"""
    a = mk(op, B1, *args)
    return raw_ite(a, TRUE, FALSE)


def lift(name, fn, *args):
    """apply an ite-free operator over decision diagrams"""
    t = None
    for x in args:
        if x.op == 'ite' and (t is None or x.args[0].id < t.id):
            t = x.args[0]
    if t is None:
        return fn(*args)
    key = (name,) + args
    r = MEMO.get(key)
    if r is not None:
        return r
    hi = lift(name, fn, *[cof(x, t, 1) for x in args])
    lo = lift(name, fn, *[cof(x, t, 0) for x in args])
    r = ITE(raw_ite(t, TRUE, FALSE), hi, lo)
    MEMO[key] = r
    return r


def lift_local(fn, args, memo=None):
    if memo is None:
        memo = {}
    t = None
    for x in args:
        if x.op == 'ite' and (t is None or x.args[0].id < t.id):
            t = x.args[0]
    if t is None:
        return fn(*args)
    key = tuple(args)
    r = memo.get(key)
    if r is not None:
        return r
    hi = lift_local(fn, [cof(x, t, 1) for x in args], memo)
    lo = lift_local(fn, [cof(x, t, 0) for x in args], memo)
    r = ITE(raw_ite(t, TRUE, FALSE), hi, lo)
    memo[key] = r
    return r


def leaves(n, cond=TRUE, out=None):
    """[(cond, leaf)] with merged conditions"""
    acc = {}

    def go(x, c):
        if x.op == 'ite':
            a = raw_ite(x.args[0], TRUE, FALSE)
            go(x.args[1], AND(c, a))
            go(x.args[2], AND(c, NOT(a)))
        else:
            acc[x] = OR(acc[x], c) if x in acc else c
    go(n, cond)
    return [(c, x) for x, c in acc.items() if c is not FALSE]


def constrain(f, c):
    """generalised cofactor f|c: canonical wrt the care set c"""
    if c is TRUE or f.op != 'ite':
        return f
    if c is FALSE:
        return f
    key = ('CON', f, c)
    r = MEMO.get(key)
    if r is not None:
        return r
    a = f.args[0]
    if c.op == 'ite' and c.args[0].id < a.id:
        a = c.args[0]
    c1, c0 = cof(c, a, 1), cof(c, a, 0)
    if c1 is FALSE:
        r = constrain(cof(f, a, 0), c0)
    elif c0 is FALSE:
        r = constrain(cof(f, a, 1), c1)
    elif cof(f, a, 1) is cof(f, a, 0):
        r = constrain(f, OR(c1, c0))
    else:
        r = raw_ite(a, constrain(cof(f, a, 1), c1), constrain(cof(f, a, 0), c0))
    MEMO[key] = r
    return r


def atoms_of(n, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(x):
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            acc.add(x.args[0])
            go(x.args[1])
            go(x.args[2])
    go(n)
    return acc


# ------------------------------------------------------------------ integers
def poly(n):
    """-> (const, {mono: coef})"""
    if n.op == 'c':
        return n.args[0], {}
    if n.op == 'poly':
        return n.args[0], dict(n.args[1])
    return 0, {(n,): 1}


def mkpoly(ty, c, d):
    w = ty[1]
    items = []
    for m, k in d.items():
        k = sgn(k, w)
        if k:
            items.append((m, k))
    c = sgn(c, w)
    if not items:
        return const(ty, c)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda t: [x.id for x in t[0]])
    return mk('poly', ty, c, tuple(items))


def l_add(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.ty, a.args[0] + b.args[0])
    c1, d1 = poly(a)
    c2, d2 = poly(b)
    for m, k in d2.items():
        d1[m] = d1.get(m, 0) + k
    return mkpoly(a.ty, c1 + c2, d1)


def l_neg(a):
    c, d = poly(a)
    return mkpoly(a.ty, -c, {m: -k for m, k in d.items()})


def l_sub(a, b):
    return l_add(a, l_neg(b))


def l_mul(a, b):
    c1, d1 = poly(a)
    c2, d2 = poly(b)
    d = {}
    c = c1 * c2
    for m, k in d1.items():
        d[m] = d.get(m, 0) + k * c2
        for m2, k2 in d2.items():
            mm = tuple(sorted(m + m2, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + k * k2
    for m2, k2 in d2.items():
        d[m2] = d.get(m2, 0) + k2 * c1
    if len(d) > 40:
        raise Blowup('poly')
    return mkpoly(a.ty, c, d)


def add(a, b):
    return lift('add', l_add, a, b)


def sub(a, b):
    return lift('sub', l_sub, a, b)


def mul(a, b):
    return lift('mul', l_mul, a, b)


def coefs(n):
    c, d = poly(n)
    return [c] + list(d.values())


def divall(n, k):
    c, d = poly(n)
    return mkpoly(n.ty, c // k, {m: x // k for m, x in d.items()})


def l_udiv(a, b):
    if b.op == 'c' and b.args[0]:
        v = b.args[0] & ((1 << b.ty[1]) - 1)
        if v == 1:
            return a
        if a.op == 'c':
            return const(a.ty, (a.args[0] & ((1 << a.ty[1]) - 1)) // v)
        if v < 1 << 31 and all(x % v == 0 for x in coefs(a)):
            return divall(a, v)
    if a is b:
        return const(a.ty, 1)
    q, r = divmod_sym(a, b)
    if q is not None:
        return q
    return mk('udiv', a.ty, a, b)


def divmod_sym(a, b):
    """(q*b + r) / b with r syntactically bounded by b (r = bv/urem by b)"""
    if b.op in ('c', 'poly'):
        return None, None
    c, d = poly(a)
    qd, rd = {}, {}
    for m, k in d.items():
        if b in m and k > 0:
            mm = list(m)
            mm.remove(b)
            qd[tuple(mm)] = k
        else:
            rd[m] = k
    if not qd or c:
        return None, None
    if not rd:
        r = const(a.ty, 0)
    elif len(rd) == 1 and list(rd.values()) == [1] and len(list(rd)[0]) == 1:
        r = list(rd)[0][0]
        if not (r.op == 'urem' and r.args[1] is b):
            return None, None
    else:
        return None, None
    q = mkpoly(a.ty, qd.pop((), 0), qd)
    return q, r


def l_urem(a, b):
    if b.op == 'c' and b.args[0]:
        v = b.args[0] & ((1 << b.ty[1]) - 1)
        if v == 1:
            return const(a.ty, 0)
        if a.op == 'c':
            return const(a.ty, (a.args[0] & ((1 << a.ty[1]) - 1)) % v)
    if a is b:
        return const(a.ty, 0)
    if a.op == 'c' and a.args[0] == 0:
        return a
    if a.op == 'urem' and a.args[1] is b:
        return a
    q, r = divmod_sym(a, b)
    if q is not None:
        return r
    return mk('urem', a.ty, a, b)


def l_sdiv(a, b):
    if b.op == 'c' and b.args[0]:
        v = b.args[0]
        if v == 1:
            return a
        if a.op == 'c':
            q = abs(a.args[0]) // abs(v)
            return const(a.ty, q if (a.args[0] < 0) == (v < 0) else -q)
        if v > 0 and all(x % v == 0 for x in coefs(a)):
            return divall(a, v)
    return mk('sdiv', a.ty, a, b)


def l_srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0]:
        r = abs(a.args[0]) % abs(b.args[0])
        return const(a.ty, -r if a.args[0] < 0 else r)
    return mk('srem', a.ty, a, b)


def l_bin(op):
    def f(a, b):
        if a.op == 'c' and b.op == 'c':
            w = a.ty[1]
            x, y = a.args[0] & ((1 << w) - 1), b.args[0] & ((1 << w) - 1)
            if op == 'and':
                return const(a.ty, x & y)
            if op == 'or':
                return const(a.ty, x | y)
            if op == 'xor':
                return const(a.ty, x ^ y)
            if op == 'shl' and y < w:
                return const(a.ty, x << y)
            if op == 'lshr' and y < w:
                return const(a.ty, x >> y)
            if op == 'ashr' and y < w:
                return const(a.ty, sgn(x, w) >> y)
        if op == 'shl' and b.op == 'c':
            return l_mul(a, const(a.ty, 1 << (b.args[0] & 63)))
        if op == 'lshr' and b.op == 'c':
            return l_udiv(a, const(a.ty, 1 << (b.args[0] & 63)))
        if op == 'ashr' and b.op == 'c':
            v = 1 << (b.args[0] & 63)
            if all(x % v == 0 for x in coefs(a)):
                return divall(a, v)
        if op == 'xor' and b.op == 'c' and b.args[0] == -1:
            return l_sub(const(a.ty, -1), a)
        if op in ('and', 'or', 'xor') and a.id > b.id:
            a, b = b, a
        return mk(op, a.ty, a, b)
    return f


L_BIN = {o: l_bin(o) for o in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr')}


# nsw-ness: an int32 polynomial produced by signed arithmetic is treated as the
# mathematical value (signed overflow is undefined), so sext distributes.
def l_sext(a, ty):
    # a conversion double -> int that overflows is undefined, so the value fits
    if a.op == 'fptosi' and a.args[0].op == 'sitofp' and ty == I64 and narrow_int(a.args[0].args[0]):
        return a.args[0].args[0]
    if a.op == 'c':
        return const(ty, a.args[0])
    c, d = poly(a)
    out = {}
    for m, k in d.items():
        mm = tuple(sorted((ext_atom('sext', x, ty) for x in m), key=lambda x: x.id))
        if any(x.op == 'poly' or x.op == 'c' for x in mm):
            t = const(ty, k)
            for x in mm:
                t = l_mul(t, x)
            c2, d2 = poly(t)
            c += c2
            for q, kk in d2.items():
                out[q] = out.get(q, 0) + kk
        else:
            out[mm] = out.get(mm, 0) + k
    return mkpoly(ty, c, out)


def ext_atom(kind, x, ty):
    if x.op == 'trunc' and x.args[0].ty == ty and x.args[0].op == 'bv':
        return x.args[0]          # loop index narrowed to int
    if x.op == 'trunc' and x.args[0].ty == ty and x.args[0].op == kind and x.args[0].args[0].ty == x.ty:
        return x.args[0]
    if x.op == 'zext':
        return mk('zext', ty, x.args[0])
    return mk(kind, ty, x)


def l_zext(a, ty):
    if a.op == 'c':
        w = a.ty[1]
        return const(ty, a.args[0] & ((1 << w) - 1))
    if a.op == 'zext':
        return mk('zext', ty, a.args[0])
    if a.op == 'trunc' and a.args[0].op == 'bv' and a.args[0].ty == ty:
        return a.args[0]
    return mk('zext', ty, a)


def l_trunc(a, ty):
    if a.op == 'c':
        return const(ty, a.args[0])
    if ty[1] == 1:
        return ne0(a)
    if a.op in ('sext', 'zext'):
        s = a.args[0]
        if s.ty == ty:
            return s
        if s.ty[1] < ty[1]:
            return mk(a.op, ty, s)
    c, d = poly(a)
    if a.op == 'poly' and all(all(x.op in ('sext',) and x.args[0].ty == ty or x.op == 'bv' for x in m) for m in d):
        # narrowing of already-narrow signed arithmetic / loop indices
        out = {}
        for m, k in d.items():
            mm = tuple(sorted((x.args[0] if x.op == 'sext' else mk('trunc', ty, x) for x in m), key=lambda x: x.id))
            out[mm] = out.get(mm, 0) + k
        return mkpoly(ty, c, out)
    return mk('trunc', ty, a)


def ne0(a):
    return NOT(eq0(a))


def eq0(a):
    """BDD for a == 0 (ite-free integer a)"""
    if a.op == 'c':
        return TRUE if a.args[0] == 0 else FALSE
    if a.op == 'zext' or a.op == 'sext':
        return eq0(a.args[0])
    c, d = poly(a)
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        if c % g:
            return FALSE
        c //= g
        d = {m: k // g for m, k in d.items()}
    it = min(d.items(), key=lambda t: [x.id for x in t[0]])
    if it[1] < 0:
        c = -c
        d = {m: -k for m, k in d.items()}
    return atom('eq0', mkpoly(a.ty, c, d))


def widen(a, signed):
    if a.ty[1] < 64:
        return lift('sext64', lambda x: l_sext(x, I64), a) if signed else lift('zext64', lambda x: l_zext(x, I64), a)
    return a


def nonneg(a):
    """syntactically known 0 <= a (signed 64)"""
    if a.op == 'c':
        return a.args[0] >= 0
    if a.op in ('zext', 'urem', 'udiv', 'sum', 'first'):
        return True
    if a.op == 'bv':
        return (a.args[1] == 0) if isinstance(a.args[0], int) else a.args[0].startswith('k')
    if a.op == 'poly':
        return a.args[0] >= 0 and all(k > 0 and all(nonneg(x) for x in m) for m, k in a.args[1])
    return False


MAXU = (1 << 64) - 1


def l_ult(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        m = (1 << a.ty[1]) - 1
        return TRUE if (a.args[0] & m) < (b.args[0] & m) else FALSE
    if b.op == 'c' and b.args[0] == 0:
        return FALSE
    if b.op == 'c' and b.args[0] == 1:
        return eq0(a)
    if a.op == 'c':
        if a.args[0] == -1:
            return FALSE
        return NOT(l_ult(b, const(a.ty, a.args[0] + 1)))
    if a.op == 'urem' and a.args[1] is b:
        return TRUE
    cs = [k for k in coefs(a) + coefs(b) if k]
    g = 0
    for k in cs:
        g = gcd(g, k)
    if g > 1:
        return l_ult(divall(a, g), divall(b, g))
    if nonneg(a) and nonneg(b):
        d = l_sub(b, a)
        if d.op == 'c':
            return TRUE if d.args[0] > 0 else FALSE
        if d.op == 'poly' and nonneg(d):
            if d.args[0] > 0:
                return TRUE
            return NOT(eq0(d))
        nd = l_sub(a, b)
        if nonneg(nd):
            return FALSE
    return atom('ult', a, b)


def l_slt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a.op == 'c':
        if a.args[0] == (1 << 63) - 1:
            return FALSE
        return NOT(l_slt(b, const(a.ty, a.args[0] + 1)))
    na, nb = nonneg(a), nonneg(b)
    if na and b.op == 'c' and b.args[0] <= 0:
        return FALSE
    if na and nb:
        return l_ult(a, b)
    # cancel common parts (signed arithmetic does not overflow)
    d = l_sub(a, b)
    if d.op == 'c':
        return TRUE if d.args[0] < 0 else FALSE
    c, dd = poly(d)
    pos = {m: k for m, k in dd.items() if k > 0}
    neg = {m: -k for m, k in dd.items() if k < 0}
    if not neg:
        l, r = mkpoly(d.ty, 0, pos), const(d.ty, -c)
    elif not pos:
        return NOT(l_slt(mkpoly(d.ty, 0, neg), const(d.ty, c + 1)))
    else:
        l, r = mkpoly(d.ty, max(c, 0), pos), mkpoly(d.ty, max(-c, 0), neg)
    if l.op == 'c' and r.op == 'c':
        return TRUE if l.args[0] < r.args[0] else FALSE
    if nonneg(l) and nonneg(r):
        return l_ult(l, r)
    return atom('slt', l, r)


def eq(a, b):
    if a.ty[0] == 'i' and a.ty[1] == 1:
        return ITE(a, b, NOT(b))
    return lift('eq', lambda x, y: eq0(l_sub(x, y)), a, b)


def ult(a, b):
    return lift('ult', l_ult, a, b)


def slt(a, b):
    return lift('slt', l_slt, a, b)


def icmp(pred, a, b):
    if a.ty[0] == 'p':
        return pcmp(pred, a, b)
    if a.ty[1] == 1:
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return NOT(eq(a, b))
        a = ITE(a, const(I64, 1), const(I64, 0))
        b = ITE(b, const(I64, 1), const(I64, 0))
        if pred[0] == 's':
            a, b = sub(const(I64, 0), a), sub(const(I64, 0), b)
    w = a.ty[1]
    if w < 64:
        s = pred[0] == 's' or pred in ('eq', 'ne')
        a, b = widen(a, s), widen(b, s)
    if pred == 'eq':
        return eq(a, b)
    if pred == 'ne':
        return NOT(eq(a, b))
    f = ult if pred[0] == 'u' else slt
    p = pred[1:]
    if p == 'lt':
        return f(a, b)
    if p == 'gt':
        return f(b, a)
    if p == 'le':
        return NOT(f(b, a))
    return NOT(f(a, b))


# ------------------------------------------------------------------ pointers
def lost_base(n):
    """does n come from a pointer whose object could not be followed round a loop"""
    st, seen = [n], set()
    while st:
        x = st.pop()
        if not isinstance(x, N) or not x.unk or x in seen:
            continue
        seen.add(x)
        if x.op == 'unk' and x.args[1] in ('pointer recurrence', 'pbase'):
            return True
        st.extend(x.args)
    return False


def ptr(base, off):
    if off.unk and lost_base(off):
        return unk(PTR, 'pbase')
    return mk('ptr', PTR, base, off)


def base(kind, *k):
    return mk('base', None, kind, *k)


NULLB = base('null')
ZERO = const(I64, 0)
ONE = const(I64, 1)
NULL = ptr(NULLB, ZERO)


def base_eq(a, b):
    """BDD: are the two memory objects the same"""
    if a is b:
        return TRUE
    ka, kb = a.args[0], b.args[0]
    if kb == 'null':
        ka, kb, a, b = kb, ka, b, a
    if ka == 'null':
        if kb == 'ld':
            return atom('isnull', b)
        return FALSE
    if ka == 'ld' and kb == 'ld':
        if a.id > b.id:
            a, b = b, a
        return atom('peq', a, b)
    return FALSE


def l_peq(a, b):
    if a.op != 'ptr' or b.op != 'ptr':
        if a is b:
            return TRUE
        return atom('peqx', *sorted((a, b), key=lambda x: x.id))
    be = base_eq(a.args[0], b.args[0])
    if be is FALSE:
        return FALSE
    if NULLB in (a.args[0], b.args[0]) and a.args[0] is not b.args[0]:
        if (a if a.args[0] is NULLB else b).args[1] is ZERO:
            return be
    oe = lift('eq', lambda x, y: eq0(l_sub(x, y)), a.args[1], b.args[1])
    return AND(be, oe)


def pcmp(pred, a, b):
    if pred == 'eq':
        return lift('peq', l_peq, a, b)
    if pred == 'ne':
        return NOT(lift('peq', l_peq, a, b))

    def f(x, y):
        if x.op == 'ptr' and y.op == 'ptr' and x.args[0] is y.args[0]:
            return icmp(pred, x.args[1], y.args[1])
        return atom('pcmp', pred, x, y)
    return lift('pcmp' + pred, f, a, b)


# ------------------------------------------------------------------ floats
def is_cf(n):
    return n.op == 'cf'


def l_fbin(op):
    def f(a, b):
        if is_cf(a) and is_cf(b) and a.ty == F64:
            x, y = fval(a), fval(b)
            try:
                if op == 'fadd':
                    return fconst(x + y)
                if op == 'fsub':
                    return fconst(x - y)
                if op == 'fmul':
                    return fconst(x * y)
                if op == 'fdiv' and y != 0:
                    return fconst(x / y)
            except OverflowError:
                pass
        if op == 'fsub' and is_cf(b) and not isnan(fval(b)) and fval(b) != 0:
            return l_fbin('fadd')(a, fconst(-fval(b), b.ty))
        if op == 'fsub' and is_cf(a) and fval(a) == 0 and struct.pack('>d', fval(a))[0]:
            return mk('fneg', a.ty, b)
        if op == 'fmul' and is_cf(b) and fval(b) == 1.0:
            return a
        if op == 'fmul' and is_cf(a) and fval(a) == 1.0:
            return b
        if op == 'fdiv' and is_cf(b) and fval(b) == 1.0:
            return a
        if op in ('fmul',):
            for x, y in ((a, b), (b, a)):
                if is_cf(x) and fval(x) == -1.0:
                    return l_fneg(y)
        if op in ('fadd', 'fmul') and a.id > b.id:
            a, b = b, a
        return mk(op, a.ty, a, b)
    return f


def l_fneg(a):
    if is_cf(a):
        return fconst(-fval(a), a.ty)
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', a.ty, a)


def mk_call(ty, name, *xs):
    """application of a pure mathematical function, with its exact identities"""
    if name == 'fabs':
        x, = xs
        if is_cf(x) and x.ty == F64:
            return fconst(abs(fval(x)))
        if x.op == 'fneg':
            return mk_call(ty, name, x.args[0])
        if x.op == 'call' and x.args[0] == 'fabs':
            return x
        if x.op == 'fsub' and x.args[0].id > x.args[1].id:
            return mk('call', ty, name, mk('fsub', x.ty, x.args[1], x.args[0]))
        if x.op == 'sitofp':
            i = x.args[0]
            j = i.args[0] if i.op == 'sext' else i
            if j.op == 'poly' and j.args[1][0][1] < 0:
                j = l_neg(j)
                return mk('call', ty, name, l_sitofp(j, x.ty))
    if name == 'pow' and is_cf(xs[1]) and xs[1].ty == F64:
        k = fval(xs[1])
        if k == 2:
            return L_FBIN['fmul'](xs[0], xs[0])
        if k == 1:
            return xs[0]
        if k == 0:
            return fconst(1.0)
    return mk('call', ty, name, *xs)


L_FBIN = {o: l_fbin(o) for o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem')}


def l_fcmp(pred):
    def at(p, a, b):
        if is_cf(a) and is_cf(b):
            x, y = fval(a), fval(b)
            r = {'olt': x < y, 'ole': x <= y, 'oeq': x == y, 'uno': isnan(x) or isnan(y)}[p]
            return TRUE if r else FALSE
        if p == 'uno':
            if a is not b:
                return OR(at('uno', a, a), at('uno', b, b))
            if is_cf(a):
                return TRUE if isnan(fval(a)) else FALSE
            if a.op in ('sitofp', 'uitofp'):
                return FALSE
            return atom('fnan', a)
        if p == 'oeq' and a.id > b.id:
            a, b = b, a
        for s, o, swap in ((a, b, 0), (b, a, 1)):
            if is_cf(s) and isnan(fval(s)):
                return FALSE
        # integers carried in doubles compare exactly when the constant is integral
        if a.op in ('sitofp',) and b.op in ('sitofp',) :
            x, y = a.args[0], b.args[0]
            if x.ty == y.ty and narrow_int(x) and narrow_int(y):
                return {'olt': l_slt(x, y), 'ole': NOT(l_slt(y, x)), 'oeq': eq0(l_sub(x, y))}[p]
        for s, o, swap in ((a, b, 0), (b, a, 1)):
            if s.op == 'sitofp' and narrow_int(s.args[0]) and is_cf(o) and fval(o) == int_or_none(fval(o)):
                x, y = s.args[0], const(I64, int(fval(o)))
                if swap:
                    x, y = y, x
                return {'olt': l_slt(x, y), 'ole': NOT(l_slt(y, x)), 'oeq': eq0(l_sub(x, y))}[p]
        if a is b:
            n = NOT(at('uno', a, a))
            return FALSE if p == 'olt' else n
        return atom('f' + p, a, b)

    def f(a, b):
        if pred == 'olt':
            return at('olt', a, b)
        if pred == 'ogt':
            return at('olt', b, a)
        if pred == 'ole':
            return at('ole', a, b)
        if pred == 'oge':
            return at('ole', b, a)
        if pred == 'oeq':
            return at('oeq', a, b)
        if pred == 'une':
            return NOT(at('oeq', a, b))
        if pred == 'uno':
            return at('uno', a, b)
        if pred == 'ord':
            return NOT(at('uno', a, b))
        if pred == 'one':
            return OR(at('olt', a, b), at('olt', b, a))
        if pred == 'ueq':
            return NOT(OR(at('olt', a, b), at('olt', b, a)))
        if pred == 'ult':
            return NOT(at('ole', b, a))
        if pred == 'ugt':
            return NOT(at('ole', a, b))
        if pred == 'ule':
            return NOT(at('olt', b, a))
        if pred == 'uge':
            return NOT(at('olt', a, b))
        return TRUE if pred == 'true' else FALSE
    return f


def int_or_none(x):
    try:
        return float(int(x)) if abs(x) < 2 ** 53 else None
    except (ValueError, OverflowError):
        return None


def narrow_int(x):
    """64-bit term that is exactly representable in a double"""
    if x.op == 'c':
        return abs(x.args[0]) < 1 << 53
    if x.op == 'poly':
        return abs(x.args[0]) < 1 << 40 and len(x.args[1]) < 16 and all(
            abs(k) < 1 << 12 and len(m) == 1 and narrow_int(m[0]) for m, k in x.args[1])
    return x.op in ('sext', 'zext') and x.args[0].ty[1] <= 32


L_FCMP = {p: l_fcmp(p) for p in ('false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true')}


def l_sitofp(a, ty):
    if a.op == 'c':
        return fconst(float(a.args[0]), ty)
    if a.ty[1] < 64:
        a = l_sext(a, I64)
    return mk('sitofp', ty, a)


def l_uitofp(a, ty):
    if a.op == 'c':
        return fconst(float(a.args[0] & ((1 << a.ty[1]) - 1)), ty)
    if a.ty[1] < 64:
        a = l_zext(a, I64)
    if nonneg(a) and a.op == 'zext':
        return mk('sitofp', ty, a)
    return mk('uitofp', ty, a)


def l_fptosi(a, ty):
    if is_cf(a):
        x = fval(a)
        if x == x and abs(x) < 2 ** 62:
            return const(ty, int(x))
    if a.op == 'sitofp' and narrow_int(a.args[0]):
        return l_trunc(a.args[0], ty) if ty[1] < 64 else a.args[0]
    return mk('fptosi', ty, a)


def l_fptoui(a, ty):
    if is_cf(a):
        x = fval(a)
        if x == x and 0 <= x < 2 ** 62:
            return const(ty, int(x))
    return mk('fptoui', ty, a)


# ------------------------------------------------------------------ binders
def close(op, ty, bvs, *body):
    """bind the fresh variables bvs in body (canonical names by nesting depth)"""
    lvl = 0
    for x in walk(body):
        lvl = max(lvl, x.lvl)
    lvl += 1
    m = {}
    nb = []
    for j, b in enumerate(bvs):
        c = canon_bv(b.ty, lvl, j)
        m[b] = c
        nb.append(c)
    body = subst_args(body, m)
    return mk(op, ty, tuple(nb), *body)


def open_binder(n):
    """-> fresh bvs, body args"""
    fresh = [fresh_bv(b.ty, 'k' if b.args[1] == 0 else 'o') for b in n.args[0]]
    m = dict(zip(n.args[0], fresh))
    return fresh, subst_args(n.args[1:], m)


def subst_args(args, m):
    out = []
    for a in args:
        if isinstance(a, N):
            out.append(subst(a, m))
        elif isinstance(a, tuple):
            out.append(subst_args(a, m))
        else:
            out.append(a)
    return tuple(out)


REBUILD = {}
READ = [None]


def subst(n, m):
    if not n.fv or not any(v in n.fv for v in m):
        return n
    mm = {k: v for k, v in m.items() if k in n.fv}
    key = ('SUB', n, tuple(sorted(((k.id, v.id) for k, v in mm.items()))))
    r = MEMO.get(key)
    if r is not None:
        return r
    r = subst1(n, mm)
    MEMO[key] = r
    return r


def subst1(n, m):
    op = n.op
    if op == 'bv':
        return m[n]
    if op == 'ite':
        return ITE(rebuild_bool(n.args[0], m), subst(n.args[1], m), subst(n.args[2], m))
    if op in BINDERS:
        bvs, body = open_binder(n)
        body = subst_args(body, m)
        return reclose(op, n.ty, bvs, body)
    if n.ty == B1:
        return rebuild_bool(n, m)
    args = subst_args(n.args, m)
    return build(op, n.ty, args)


def rebuild_bool(a, m):
    key = ('RB', a, tuple(sorted(((k.id, v.id) for k, v in m.items() if k in a.fv))))
    r = MEMO.get(key)
    if r is not None:
        return r
    if not any(v in a.fv for v in m):
        r = raw_ite(a, TRUE, FALSE)
    elif a.op == 'bv':
        r = m[a]
        if r.op not in ('ite', 'c'):
            r = raw_ite(r, TRUE, FALSE)
    elif a.op in BINDERS:
        bvs, body = open_binder(a)
        r = reclose(a.op, a.ty, bvs, subst_args(body, m))
        if r.op not in ('ite', 'c'):
            r = raw_ite(r, TRUE, FALSE)
    else:
        args = subst_args(a.args, m)
        r = build_atom(a.op, args)
    MEMO[key] = r
    return r


def build_atom(op, args):
    if op == 'eq0':
        return lift('eq0', eq0, args[0])
    if op == 'ult':
        return ult(*args)
    if op == 'slt':
        return slt(*args)
    if op == 'fnan':
        return lift('fcmpuno', lambda x: L_FCMP['uno'](x, x), args[0])
    if op in ('folt', 'fole', 'foeq'):
        return lift('fcmp' + op[1:], L_FCMP[op[1:]], *args)
    if op in ('isnull', 'peq'):
        ns = [x for x in args]
        if len(ns) == 1:
            return lift_base(lambda b: base_eq(b, NULLB), ns[0])
        return atom(op, *ns)
    if all(not isinstance(x, N) or x.op != 'ite' for x in args):
        return atom(op, *args)
    ns = [x for x in args if isinstance(x, N)]
    st = [x for x in args if not isinstance(x, N)]
    return lift('atom' + op + repr(st), lambda *xs: atom(op, *(st + list(xs))), *ns)


def lift_base(f, b):
    return f(b)


def build(op, ty, args):
    """rebuild a term from (possibly ite) children"""
    if op == 'poly':
        c, items = args
        t = const(ty, c)
        for mono, k in items:
            p = const(ty, k)
            for x in mono:
                p = mul(p, x)
            t = add(t, p)
        return t
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        return lift(op, {'udiv': l_udiv, 'urem': l_urem, 'sdiv': l_sdiv, 'srem': l_srem}[op], *args)
    if op in L_BIN:
        return lift(op, L_BIN[op], *args)
    if op in L_FBIN:
        return lift(op, L_FBIN[op], *args)
    if op == 'fneg':
        return lift(op, l_fneg, *args)
    if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
        f = CONV[op]
        return lift(op + str(ty), lambda x: f(x, ty), args[0])
    if op == 'sel':
        return READ[0](args[0], args[1], ty)
    if op == 'ptr':
        b, off = args
        return lift_local(lambda o: ptr(b, o), [off])
    if op == 'base':
        kind = args[0]
        if kind == 'ld':
            v = args[1]
            if v.op != 'sel':
                return mk('base', None, 'unk', v)
            return mk('base', None, *args)
        return mk('base', None, *args)
    if op == 'call':
        ns = args[1:]
        return lift('call' + args[0], lambda *xs: mk_call(ty, args[0], *xs), *ns)
    if op.startswith('A.'):
        return mk(op, ty, *args)
    if any(isinstance(x, N) and x.op == 'ite' for x in args):
        ns = [x for x in args if isinstance(x, N)]
        st = [x for x in args if not isinstance(x, N)]
        if not st:
            return lift('b' + op, lambda *xs: mk(op, ty, *xs), *ns)
        pat = [isinstance(x, N) for x in args]

        def f(*xs):
            it = iter(xs)
            return mk(op, ty, *[next(it) if p else a for p, a in zip(pat, args)])
        return lift_local(f, ns)
    return mk(op, ty, *args)


CONV = {'sext': l_sext, 'zext': l_zext, 'trunc': l_trunc, 'sitofp': l_sitofp, 'uitofp': l_uitofp,
        'fptosi': l_fptosi, 'fptoui': l_fptoui}


def reclose(op, ty, bvs, body):
    if op == 'any':
        return mk_any(bvs[0], body[0], body[1])
    if op == 'sum':
        return mk_sum(bvs[0], body[0], body[1])
    if op == 'first':
        return mk_first(bvs[0], body[0])
    return close(op, ty, bvs, *body)


def mk_any(k, count, cond):
    """exists k < count . cond(k)   (BDD)"""
    if cond is FALSE or count is ZERO:
        return FALSE
    if k not in cond.fv:
        return AND(cond, NOT(eq(count, ZERO)))
    # split off k-independent conjuncts/disjuncts at the top of the diagram
    if cond.op == 'ite':
        inv = [a for a in atoms_of(cond) if k not in a.fv]
        if inv:
            a = min(inv, key=lambda x: x.id)
            t = raw_ite(a, TRUE, FALSE)
            return ITE(t, mk_any(k, count, constrain(cond, t)), mk_any(k, count, constrain(cond, NOT(t))))
    if count.op == 'ite':
        a = count.args[0]
        return ITE(raw_ite(a, TRUE, FALSE), mk_any(k, count.args[1], cond), mk_any(k, count.args[2], cond))
    if count.op == 'c' and 0 <= count.args[0] <= 4:
        r = FALSE
        for j in range(count.args[0]):
            r = OR(r, subst(cond, {k: const(I64, j)}))
        return r
    # bounds: k < count implies not(ult(n-1.., k)) style facts
    r = any_closed(cond, k, count)
    if r is not None:
        return r
    c2 = bound_simplify(cond, k, count)
    if c2 is not cond:
        return mk_any(k, count, c2)
    a = close('any', B1, [k], count, cond)
    return raw_ite(a, TRUE, FALSE)


def any_closed(cond, k, count):
    if cond.op != 'ite' or len(atoms_of(cond)) != 1:
        return None
    a, pos = cond.args[0], cond.args[1] is TRUE
    if a.op != 'ult':
        return None
    x, y = a.args
    if not pos and x is k and k not in y.fv:
        return ult(y, count)                       # some k < count reaches y
    if pos and y is k and k not in x.fv and nonneg(x):
        return ult(add(x, ONE), count)
    return None


def bound_simplify(cond, k, count):
    """use 0 <= k < count on atoms of cond"""
    for a in sorted(atoms_of(cond), key=lambda x: x.id):
        if k not in a.fv:
            continue
        t = raw_ite(a, TRUE, FALSE)
        if a.op == 'ult' and a.args[0] is k and a.args[1] is count:
            return constrain(cond, t)
        if a.op == 'ult' and a.args[1] is k and a.args[0] is count:
            return constrain(cond, NOT(t))
    return cond


def mk_sum(k, count, body):
    """sum_{k<count} body(k), integer, body a decision diagram"""
    if k not in body.fv:
        return mul(body, count if body.ty == I64 else CONV_(count, body.ty))
    if count.op == 'ite':
        return ITE(raw_ite(count.args[0], TRUE, FALSE), mk_sum(k, count.args[1], body), mk_sum(k, count.args[2], body))
    if count.op == 'c' and 0 <= count.args[0] <= 4:
        r = const(body.ty, 0)
        for j in range(count.args[0]):
            r = add(r, subst(body, {k: const(I64, j)}))
        return r
    return close('sum', body.ty, [k], count, body)


def CONV_(n, ty):
    return lift('trunc' + str(ty), lambda x: l_trunc(x, ty), n) if ty[1] < 64 else n


def mk_first(k, cond):
    """smallest k >= 0 with cond(k)"""
    if cond is TRUE:
        return ZERO
    c0 = subst(cond, {k: ZERO})
    if c0 is TRUE:
        return ZERO
    if cond.op == 'ite':
        inv = [a for a in atoms_of(cond) if k not in a.fv]
        if inv:
            a = min(inv, key=lambda x: x.id)
            t = raw_ite(a, TRUE, FALSE)
            return ITE(t, mk_first(k, constrain(cond, t)), mk_first(k, constrain(cond, NOT(t))))
    r = first_closed(k, cond)
    if r is not None:
        return r
    return close('first', I64, [k], cond)


def lin(p, k):
    """p = c*k + r with k not in r -> (c, r)"""
    if k not in p.fv:
        return 0, p
    c0, d = poly(p)
    rest = {}
    c = 0
    for m, co in d.items():
        if m == (k,):
            c = co
        elif any(k in x.fv for x in m):
            return None
        else:
            rest[m] = co
    return c, mkpoly(p.ty, c0, rest)


def first_closed(k, cond):
    if cond.op != 'ite' or len(atoms_of(cond)) != 1:
        return None
    a = cond.args[0]
    pos = cond.args[1] is TRUE
    if a.op == 'eq0':
        l = lin(a.args[0], k)
        if l is None:
            return None
        c, r = l
        if pos:
            if c == 1:
                return l_neg(r)
            if c == -1:
                return r
        return None
    if a.op in ('ult', 'slt'):
        lt = ult if a.op == 'ult' else slt
        l, r = lin(a.args[0], k), lin(a.args[1], k)
        if l is None or r is None:
            return None
        if not pos:
            # exit when not (A < B)
            if l[0] > 0 and r[0] == 0:
                s, c, n = l[0], l[1], r[1]
                d = sub(n, c)
                if a.op == 'ult' and c is ZERO and s == 1:
                    return n
                cnt = d if s == 1 else lift('udiv', l_udiv, add(d, const(I64, s - 1)), const(I64, s))
                return ITE(lt(c, n), cnt, ZERO)
            if l[0] == 0 and r[0] == -1:
                # a < c - k
                d = sub(r[1], l[1])
                return ITE(lt(l[1], r[1]), d, ZERO)
            if l[0] == 0 and r[0] == 0:
                return None
            if a.op == 'slt' and l[0] > 0 and r[0] < 0:
                return None
        else:
            # exit when A < B
            if r[0] == 1 and l[0] == 0:
                # n < c + k : smallest k with k > n - c
                n, c = l[1], r[1]
                return ITE(lt(n, c), ZERO, add(sub(n, c), ONE))
            if l[0] == -1 and r[0] == 0 and a.op == 'slt':
                # c - k < n : smallest k > c - n
                c, n = l[1], r[1]
                return ITE(lt(c, n), ZERO, add(sub(c, n), ONE))
    return None


# ------------------------------------------------------------------ printing
def show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in n) + ')'
        return str(n)
    if d > 14:
        return '...'
    o = n.op
    if o == 'c':
        return str(n.args[0]) if n.ty != B1 else ('true' if n.args[0] else 'false')
    if o == 'cf':
        return repr(fval(n))
    if o == 'poly':
        s = []
        for m, k in n.args[1]:
            t = '*'.join(show(x, d + 1) for x in m)
            s.append(t if k == 1 else '%d*%s' % (k, t))
        if n.args[0]:
            s.append(str(n.args[0]))
        return '(' + ' + '.join(s) + ')'
    if o == 'bv':
        return '$' + '.'.join(map(str, n.args))
    if o == 'ite':
        return 'if(%s, %s, %s)' % tuple(show(x, d + 1) for x in n.args)
    if o == 'base':
        return '/'.join(show(x, d + 1) for x in n.args)
    if o == 'ptr':
        return '&[%s + %s]' % (show(n.args[0], d + 1), show(n.args[1], d + 1))
    if o == 'sel':
        return '%s[%s]' % (show(n.args[0], d + 1), show(n.args[1], d + 1))
    if o == 'A.init':
        return show(n.args[0], d + 1)
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in n.args))
