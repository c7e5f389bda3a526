"""Zone (difference-bound) closure on the cubes of a decision diagram.

Each path of the diagram to `true` is a conjunction of canonical comparison
literals; it is abstracted to ordering facts x - y <= c over the integer terms
and refuted when the closure has a negative cycle.  Sound for refutation only.
"""
import os, time
import term as T
from term import TRUE, FALSE, I64

INF = float('inf')
DBG = os.environ.get('VF_DBG')


def split(t):
    """term -> (variable node or None, constant)"""
    c, d = T.poly(t)
    if not d:
        return None, c
    return T.mkpoly(t.ty, 0, d), c


class Zone:
    """difference bounds, closed incrementally"""

    def __init__(self):
        self.out = {None: {}}     # x -> {y: c}   x - y <= c
        self.inn = {None: {}}
        self.bad = False
        self.neq = []
        self.rems = []
        self.late = []
        self.cond = []            # facts that wait for a bound

    def copy(self):
        z = Zone.__new__(Zone)
        z.out = {k: dict(v) for k, v in self.out.items()}
        z.inn = {k: dict(v) for k, v in self.inn.items()}
        z.bad = self.bad
        z.neq, z.rems, z.late, z.cond = list(self.neq), list(self.rems), list(self.late), list(self.cond)
        return z

    @property
    def vars(self):
        return self.out

    def get(self, x, y):
        o = self.out.get(x)
        return INF if o is None else o.get(y, INF)

    def var(self, v, depth=0):
        if v in self.out:
            return
        self.out[v] = {}
        self.inn[v] = {}
        self.facts(v, depth)

    def watch(self, terms):
        """include the remainders inside these terms"""
        seen = set()
        st = list(terms)
        while st:
            t = st.pop()
            if t in seen or len(seen) > 400:
                continue
            seen.add(t)
            if t.op == 'urem' and not t.fv:
                self.rems.append(t)
                for x in (t, t.args[0], t.args[1]):
                    v = split(x)[0]
                    if v is not None:
                        self.var(v)
            if t.op != 'ite' and t.op not in T.BINDERS:
                st.extend(T.walk(t.args))

    def le(self, x, y, c, depth=0):
        """x - y <= c"""
        if x is y:
            if c < 0:
                self.bad = True
            return
        self.var(x, depth)
        self.var(y, depth)
        out, inn = self.out, self.inn
        if c >= out[x].get(y, INF):
            return
        if c + out[y].get(x, INF) < 0:
            self.bad = True
            return
        froms = list(inn[x].items())
        froms.append((x, 0))
        tos = list(out[y].items())
        tos.append((y, 0))
        for i, a in froms:
            oi = out[i]
            for j, b in tos:
                if i is j:
                    continue
                s = a + c + b
                if s < oi.get(j, INF):
                    oi[j] = s
                    inn[j][i] = s

    def add_lit(self, a, pos):
        if a.op == 'ult':
            x, y = a.args
            # unsigned order over quantities assumed below 2^63
            (xv, xc), (yv, yc) = split(x), split(y)
            if not (self.plain(x) and self.plain(y)):
                self.late.append((a, pos))
                for v in (xv, yv):
                    if v is not None:
                        self.var(v)
                return
            if pos:
                self.le(xv, yv, yc - xc - 1)
            else:
                self.le(yv, xv, xc - yc)
        elif a.op == 'slt':
            (xv, xc), (yv, yc) = split(a.args[0]), split(a.args[1])
            if pos:
                self.le(xv, yv, yc - xc - 1)
            else:
                self.le(yv, xv, xc - yc)
        elif a.op == 'eq0':
            c, d = T.poly(a.args[0])
            ps = {m: k for m, k in d.items() if k > 0}
            ns = {m: -k for m, k in d.items() if k < 0}
            ty = a.args[0].ty
            x = T.mkpoly(ty, 0, ps) if ps else None
            y = T.mkpoly(ty, 0, ns) if ns else None
            # x + c == y
            if pos:
                self.le(x, y, -c)
                self.le(y, x, c)
            else:
                self.neq.append((x, y, -c))

    def plain(self, t):
        """no wrap-around possible in an unsigned reading: only sums of
        non-negative parts, or constants"""
        c, d = T.poly(t)
        return c >= 0 and all(k > 0 for k in d.values())

    def nowrap(self, t):
        """v + c (c < 0) with v >= -c known: an ordinary subtraction"""
        if self.plain(t):
            return True
        v, c = split(t)
        return v is not None and self.plain(v) and self.get(None, v) <= c

    def close(self):
        """saturate the conditional facts; True if inconsistent"""
        while not self.bad:
            ch = False
            for f in list(self.cond):
                x, v, m, c = f
                if self.get(None, x) <= m:
                    self.le(x, v, c)
                    self.cond.remove(f)
                    ch = True
            # x != y + c strengthens x <= y + c
            for x, y, c in self.neq:
                if self.get(x, y) == c:
                    self.le(x, y, c - 1)
                    ch = True
                if self.get(y, x) == -c:
                    self.le(y, x, -c - 1)
                    ch = True
            for f in list(self.late):
                a, pos = f
                if all(self.nowrap(t) for t in a.args):
                    (xv, xc), (yv, yc) = split(a.args[0]), split(a.args[1])
                    if pos:
                        self.le(xv, yv, yc - xc - 1)
                    else:
                        self.le(yv, xv, xc - yc)
                    self.late.remove(f)
                    ch = True
            if not ch:
                break
        return self.bad

    def facts(self, v, depth=0):
        if v is None or v.op == 'c':
            return
        d = depth + 1
        if uns(v):
            self.le(None, v, 0, d)
        if v.op == 'poly':
            for m, k in v.args[1]:
                if len(m) == 1 and uns(v):
                    x = m[0]
                    if depth >= 3 and x not in self.out:
                        continue
                    self.le(x, v, -v.args[0], d)
                    if k >= 2:
                        self.cond.append((x, v, -1, -v.args[0] - (k - 1)))
        if v.op == 'urem':
            b, bc = split(v.args[1])
            if depth < 3 or b in self.out:
                self.le(v, b, bc - 1, d)
            a, ac = split(v.args[0])
            if uns(v.args[0]) and (depth < 3 or a in self.out):
                self.le(v, a, ac, d)
        elif v.op == 'udiv':
            a, ac = split(v.args[0])
            if depth < 3 or a in self.out:
                self.le(v, a, ac, d)
        elif v.op == 'sum' and len(v.args[0]) == 1:
            b = v.args[2]
            lv = [l for _, l in T.leaves(b)]
            if all(l.op == 'c' and 0 <= l.args[0] <= 1 for l in lv):
                a, ac = split(v.args[1])
                if depth < 3 or a in self.out:
                    self.le(v, a, ac, d)
        elif v.op == 'fptoui':
            m = v.args[0]
            # floor(n * c) >= n for c >= 1 (n exactly representable)
            if m.op == 'fmul' and m.args[0].op == 'cf':
                cst, u = m.args
            elif m.op == 'fmul' and m.args[1].op == 'cf':
                u, cst = m.args
            else:
                return
            if u.op == 'uitofp' and T.fval(cst) >= 1.0:
                a, ac = split(u.args[0])
                if depth < 3 or a in self.out:
                    self.le(a, v, -ac, d)


def uns(v):
    """unsigned quantity: atoms are size_t loads, counters, zero extensions"""
    if v.ty != I64:
        return False
    if v.op == 'poly':
        return v.args[0] >= 0 and all(k > 0 and all(uns(x) for x in m) for m, k in v.args[1])
    return T.nonneg(v) or v.op in ('sel', 'fptoui')


def skolem(bdd, depth=0):
    """replace positive bounded existentials by a fresh witness index"""
    if depth > 3:
        return bdd
    done = False
    for a in sorted(T.atoms_of(bdd), key=lambda x: x.id):
        if a.op != 'any':
            continue
        f, body = T.open_binder(a)
        cnt, cond = body
        w = T.AND(T.ult(f[0], cnt), cond)
        t = T.raw_ite(a, TRUE, FALSE)
        bdd = T.ITE(t, T.AND(T.constrain(bdd, t), w), T.constrain(bdd, T.NOT(t)))
        # the atom itself may stay in `w`'s sibling branch only negatively
        bdd = drop(bdd, a)
        done = True
    return skolem(bdd, depth + 1) if done else bdd


def drop(bdd, a):
    """existentially forget atom a"""
    t = T.raw_ite(a, TRUE, FALSE)
    if a not in T.atoms_of(bdd):
        return bdd
    return T.OR(T.constrain(bdd, t), T.constrain(bdd, T.NOT(t)))


def refuted(bdd, units=(), limit=3000, budget=20.0):
    """True if every cube of the diagram is inconsistent"""
    if bdd is FALSE:
        return True
    try:
        bdd = skolem(bdd)
    except T.Blowup:
        return False
    n = [0]
    root = Zone()
    for a, p in units:
        root.add_lit(a, p)
    if root.close():
        return True
    t1 = time.time() + budget

    def go(x, z, lits):
        if x is FALSE:
            return True
        n[0] += 1
        if n[0] > limit or time.time() > t1:
            return False
        if x is TRUE:
            if not lits:
                return False
            prs = [a.args for a, p in lits if p and a.op == 'neqleaf']
            if not prs:
                if DBG:
                    print('CUBE', lits, 'UNITS', units)
                return False
            z = z.copy()
            for pr in prs:
                z.watch(pr)
            r = z.close() or any(congruent(z, list(units) + lits, x, y) for x, y in prs)
            if DBG and not r:
                print('CUBE', lits, 'UNITS', units)
            return r
        if x.op != 'ite':
            return False
        a, hi, lo = x.args
        for p, y in ((True, hi), (False, lo)):
            if y is FALSE:
                continue
            if a.op == 'neqleaf':
                z2 = z
            else:
                z2 = z.copy()
                z2.add_lit(a, p)
                if z2.close():
                    continue
            if not go(y, z2, lits + [(a, p)]):
                return False
        return True
    return go(bdd, root, [])


def congruent(z, lits, x, y):
    """x and y become the same term under the facts of this cube: equalities
    between integer terms and remainders of already reduced quantities"""
    m = {}
    for u in z.rems:
        a, ac = split(u.args[0])
        b, bc = split(u.args[1])
        if z.get(a, b) <= bc - ac - 1 and uns(u.args[0]):
            m[u] = u.args[0]
    for a, p in lits:
        if p and a.op == 'eq0':
            c, d = T.poly(a.args[0])
            ty = a.args[0].ty
            cand = [mo for mo, k in d.items() if len(mo) == 1 and k in (1, -1) and mo[0] not in m and
                    not any(mo[0] in m2 for m2 in d if m2 != mo)]
            if cand:
                mo = max(cand, key=lambda t: t[0].id)
                k = d.pop(mo)
                m[mo[0]] = T.mkpoly(ty, -c * k, {q: -k * v for q, v in d.items()})
    vs = sorted((v for v in z.vars if v is not None and v.op != 'c'), key=lambda t: t.id)
    for i, u in enumerate(vs):
        if u in m or u.op == 'poly':
            continue
        for v in [None] + vs[:i]:
            c = z.get(u, v)
            if c != INF and z.get(v, u) == -c:
                m[u] = T.const(u.ty, int(c)) if v is None else T.add(v, T.const(u.ty, int(c)))
                break
    if not m:
        return False
    try:
        for _ in range(3):
            memo = {}
            nx, ny = rewrite(x, m, memo), rewrite(y, m, memo)
            if nx is ny:
                return True
            if nx is x and ny is y:
                return False
            x, y = nx, ny
    except (T.Blowup, RecursionError, KeyError):
        pass
    return False


def rewrite(n, m, memo):
    r = memo.get(n)
    if r is not None:
        return r
    if n in m:
        r = rewrite(m[n], {k: v for k, v in m.items() if k is not n}, {})
    elif n.op == 'ite' or n.op in T.BINDERS or n.ty == T.B1:
        r = n
    else:
        def args(t):
            return tuple(rewrite(a, m, memo) if isinstance(a, T.N) else args(a) if isinstance(a, tuple) else a for a in t)
        na = args(n.args)
        r = n if na == n.args else T.build(n.op, n.ty, na)
    memo[n] = r
    return r


def differ(a, b):
    """diagram of the region where the two diagrams have different leaves"""
    return T.lift('differ', lambda x, y: FALSE if x is y else
                  T.raw_ite(T.mk('neqleaf', T.B1, x, y), TRUE, FALSE), a, b)


def units_of(bdds):
    """single-literal conjuncts -> literals; the rest conjoined"""
    u, rest = [], TRUE
    for b in bdds:
        if b.op == 'ite' and b.args[1] in (TRUE, FALSE) and b.args[2] in (TRUE, FALSE):
            u.append((b.args[0], b.args[1] is TRUE))
        else:
            rest = T.AND(rest, b)
    return u, rest
