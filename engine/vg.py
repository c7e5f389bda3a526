"""Gated value-graph construction: IR function -> value-flow summary.

A forward dataflow pass in topological order.  Joins become decision diagrams
over branch atoms (no path enumeration), memory is a per-object cell map /
array-update chain, loops are summarised once by solving their recurrences and
closing their array effects into comprehensions.
"""
import re, sys
import term as T
from term import (N, mk, const, TRUE, FALSE, ITE, AND, OR, NOT, lift, lift_local, I64, I32, F64, PTR, B1, ZERO, ONE,
                  add, sub, mul, eq, ult, slt, icmp, ptr, base, NULL, NULLB, constrain, subst, unk, fresh_bv, close,
                  leaves)

ARR = ('arr', 0)
sys.setrecursionlimit(100000)

PURE = {'exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'sqrt', 'pow', 'fabs', 'floor',
        'ceil', 'trunc', 'round', 'fmod', 'log10', 'log2', 'exp2', 'atan2', 'expf', 'logf', 'powf', 'sqrtf', 'sinf', 'cosf',
        'tanf', 'log1p', 'expm1', 'cbrt', 'erf', 'erfc', 'lgamma', 'tgamma', 'ldexp', 'abs', 'labs', 'nearbyint', 'rint',
        'hypot', 'fmin', 'fmax', 'copysign', 'asinh', 'acosh', 'atanh'}


class Obj:
    __slots__ = ('cells', 'arr', 'copies', 'freed')

    def __init__(s, cells=None, arr=None, copies=(), freed=FALSE):
        s.cells = cells if cells is not None else {}
        s.arr = arr
        s.copies = copies
        s.freed = freed


class Frame:
    def __init__(s):
        s.throws = FALSE
        s.asm = TRUE
        s.asms = []
        s.tsites = []
        s.changed = FALSE   # an error leaves a watched location changed
        s.achanged = FALSE  # an allocation is attempted while a watched location is changed
        s.wsites = []
        s.warned = FALSE
        s.oblig = []      # (kind, bad, loc)
        s.events = []     # (cond, name, args) | ('loop', k, K, [...])
        s.outs = {}


class Undecided(Exception):
    pass


def conv(v, ty):
    """value v (any type) seen as ty"""
    if v.ty == ty:
        return v
    if v.op == 'unk':
        return unk(ty)
    a, b = v.ty, ty
    if a[0] == 'i' and b[0] == 'i':
        if a[1] > b[1]:
            return lift('trunc' + str(ty), lambda x: T.l_trunc(x, ty), v)
        return lift('zext' + str(ty), lambda x: T.l_zext(x, ty), v)
    if b[0] == 'p' and v is ZERO:
        return NULL
    if b == F64 and v.op == 'c' and v.args[0] == 0:
        return T.fconst(0.0)
    if a[0] == 'p' and b == I64:
        return lift('p2i', l_p2i, v)
    return unk(ty, 'conv')


def l_p2i(p):
    if p.op == 'ptr':
        if p.args[0] is NULLB:
            return p.args[1]
        return add(mk('paddr', I64, p.args[0]), p.args[1])
    return mk('paddrx', I64, p)


# ------------------------------------------------------------------ arrays
def read(arr, idx, ty):
    if idx.op == 'ite':
        return lift_local(lambda i: read(arr, i, ty), [idx])
    op = arr.op
    if op in ('A.init', 'A.undef', 'bv', 'A.loop', 'rec'):
        return mk('sel', ty, arr, idx)
    if op == 'A.unk':
        return unk(ty, 'arr')
    if op == 'A.store':
        prev, off, val, size = arr.args
        d = sub(idx, off)
        if d.op == 'c':
            if d.args[0] == 0:
                return conv(val, ty)
            if d.args[0] >= size or -d.args[0] >= tysize(ty):
                return read(prev, idx, ty)
            return unk(ty, 'overlap')
        return ITE(eq(idx, off), conv(val, ty), read(prev, idx, ty))
    if op == 'A.mux':
        c, a, b = arr.args
        return ITE(c, read(a, idx, ty), read(b, idx, ty))
    if op == 'A.fill':
        (k,), prev, start, stride, count, val, size = arr.args
        st = stride.args[0]
        d = sub(idx, start)
        if d.op == 'ite':
            return lift_local(lambda dd: read_fill(arr, idx, dd, ty), [d])
        return read_fill(arr, idx, d, ty)
    if op == 'A.copy':
        prev, dst, src, soff, ln = arr.args
        d = sub(idx, dst)
        c = ult(d, ln)
        if c is TRUE:
            return read(src, add(soff, d), ty)
        if c is FALSE:
            return read(prev, idx, ty)
        return ITE(c, read(src, add(soff, d), ty), read(prev, idx, ty))
    if op == 'A.set':
        prev, dst, byte, ln = arr.args
        d = sub(idx, dst)
        if byte is const(byte.ty, 0) or byte.op == 'c' and byte.args[0] == 0:
            v = T.fconst(0.0, ty) if ty[0] == 'f' else NULL if ty[0] == 'p' else const(ty, 0)
        else:
            v = unk(ty, 'memset')
        return ITE(ult(d, ln), v, read(prev, idx, ty))
    return unk(ty, op)


def read_fill(arr, idx, d, ty):
    (k,), prev, start, stride, count, val, size = arr.args
    st = stride.args[0]
    if st < 0:
        d, st = T.l_neg(d), -st
    if all(x % st == 0 for x in T.coefs(d)):
        q = T.divall(d, st)
        fresh, body = T.open_binder(arr)
        v = body[4]
        c = ult(q, count)
        if c is FALSE:
            return read(prev, idx, ty)
        r = conv(subst(v, {fresh[0]: q}), ty)
        if c is TRUE:
            return r
        return ITE(c, r, read(prev, idx, ty))
    return mk('sel', ty, arr, idx)


T.READ[0] = read


def tysize(ty):
    return {'i': (ty[1] + 7) // 8, 'f': ty[1] // 8, 'p': 8}.get(ty[0], 8)


# ------------------------------------------------------------------ CFG
def analyse_cfg(F):
    blocks = F.blocks
    n = len(blocks)
    order, seen = [], set()
    st = [(blocks[0], iter(blocks[0].succs))]
    seen.add(blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in b.preds if p in idom]
            d = ps[0]
            for p in ps[1:]:
                x, y = p, d
                while x is not y:
                    while rpo[x] > rpo[y]:
                        x = idom[x]
                    while rpo[y] > rpo[x]:
                        y = idom[y]
                d = x
            if idom.get(b) is not d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while rpo[b] > rpo[a]:
            b = idom[b]
        return a is b
    loops = {}
    for b in order:
        for s in b.succs:
            if s in rpo and rpo[s] <= rpo[b]:
                if not dom(s, b):
                    raise Undecided('irreducible')
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(p for p in x.preds if p in rpo)
    # topological order ignoring back edges
    return order, rpo, loops


class FnEval:
    def __init__(self, mod, F, args, mem=None, trace=False, opaque=()):
        self.mod = mod
        self.F = F
        self.opaque = opaque
        self.order, self.rpo, self.loops = analyse_cfg(F)
        self.dead_ends = {b for b in self.order if b.term.op == 'unreachable' and not b.phis and len(b.insts) == 1
                          and b.insts[0].op == 'call' and b.insts[0].extra[0] == 'fn' and b.insts[0].extra[1] == 'vf_throw'
                          and b is not F.blocks[0]}
        self.val = {}
        for a, v in zip(F.args, args):
            self.val[a] = v
        self.frames = [Frame()]
        self.ext = {}
        self.owned = {}
        self.mods = {}
        self.binders = []
        self.site = {}
        self.unknown_calls = set()
        self.watch = []     # (pointer, type, content when the watch began)
        self.flags = 0
        n = 0
        for b in F.blocks:
            for i in b.phis + b.insts:
                self.site[i.id] = n
                n += 1
        self.stats = {'loops': 0, 'insts': n, 'accesses': 0, 'unsolved': []}
        self.ninst = n

    # ---- driver
    def run(self):
        rets = []
        self.rets = rets
        self.run_region(set(self.order), self.F.blocks[0], TRUE, {}, None)
        fr = self.frames[0]
        ret, cond, mem = None, FALSE, {}
        for c, v, m in rets:
            if v is not None:
                ret = v if ret is None else ITE(c, v, ret)
            cond = OR(cond, c)
        if len(rets) == 1:
            mem = rets[0][2]
        return ret, cond, mem

    def opv(self, o):
        k = o[0]
        if k == 'v':
            v = self.val.get(o[1])
            if v is None:
                raise Undecided('undefined value')
            return v
        if k == 'ci':
            return const(('i', o[2]), o[1])
        if k == 'cf':
            return T.fconst(o[1])
        if k == 'null':
            return NULL
        if k in ('gv', 'fn'):
            return ptr(base('glob', o[1]), ZERO)
        if k == 'cgep':
            return self.gep(o[1])
        if k == 'undef':
            return mk('undef', o[1]) if o[1][0] in 'ifp' else ('agg', {})
        if k == 'zero':
            t = o[1]
            if t[0] == 'f':
                return T.fconst(0.0, t)
            if t[0] == 'i':
                return const(t, 0)
            return ('agg', {})
        return unk(o[1] if len(o) > 1 and isinstance(o[1], tuple) else I64, 'operand')

    def gep(self, g):
        b, c, var = g
        p = self.opv(b)
        off = const(I64, c)
        for o, w, sz in var:
            i = self.opv(o)
            if w < 64:
                i = T.widen(i, True)
            off = add(off, mul(i, const(I64, sz)))
        if off is ZERO:
            return p

        def f(x, o):
            if x.op != 'ptr':
                return unk(PTR, 'gep')
            return lift_local(lambda z: ptr(x.args[0], z), [add(x.args[1], o)])
        return lift('gep', f, p, off)

    # ---- regions
    def run_region(self, blocks, entry, cond, mem, header, phivals=None):
        """returns out edges [(from, to, cond, mem)]"""
        inc = {entry: [(None, cond, mem, None)]}
        out = []
        skip = set()
        for b in self.order:
            if b not in blocks or b in skip or b not in inc:
                continue
            if b in self.loops and b is not header:
                L = self.loops[b]
                skip |= L
                edges = self.run_loop(b, L, inc[b])
                for (fb, tb, c, m, vf) in edges:
                    if tb in blocks and tb is not header:
                        inc.setdefault(tb, []).append((fb, c, m, vf))
                    else:
                        out.append((fb, tb, c, m, vf))
                continue
            es = inc[b]
            P = FALSE
            for e in es:
                P = OR(P, e[1])
            if P is FALSE:
                continue
            rel = [constrain(e[1], P) for e in es]
            if b is entry and header is not None and b is header:
                mem_b = es[0][2]      # phis preset
            else:
                vals = []
                for ph in b.phis:
                    v = None
                    for e, r in zip(es, rel):
                        o = next(o for o, pb in ph.ops if pb is e[0])
                        x = self.opv(o)
                        if isinstance(x, tuple):
                            raise Undecided('aggregate phi')
                        if e[3] is not None:
                            x = e[3](x)
                        v = x if v is None else ITE(r, x, v)
                    vals.append(v)
                for ph, v in zip(b.phis, vals):
                    self.val[ph.id] = v
                mem_b = self.merge_mem([(r, e[2]) for e, r in zip(es, rel)])
            mem_b = dict(mem_b)
            P, dead = self.run_block(b, P, mem_b)
            if dead or P is FALSE:
                continue
            t = b.term
            if t.op == 'ret':
                v = self.opv(t.ops[0]) if t.ops else None
                self.rets.append((P, v, mem_b))
                continue
            if t.op == 'unreachable':
                continue
            if t.op == 'br' and not t.ops:
                eds = [(b.succs[0], P)]
            elif t.op == 'br':
                c = self.opv(t.ops[0])
                if b.succs[0] is b.succs[1]:
                    eds = [(b.succs[0], P)]
                else:
                    eds = [(b.succs[0], AND(P, c)), (b.succs[1], AND(P, NOT(c)))]
            elif t.op == 'switch':
                x = self.opv(t.ops[0])
                rest = P
                d = {}
                for o, tb in t.extra:
                    c = icmp('eq', x, self.opv(o))
                    d[tb] = OR(d.get(tb, FALSE), AND(rest, c))
                    rest = AND(rest, NOT(c))
                d[b.succs[0]] = OR(d.get(b.succs[0], FALSE), rest)
                eds = list(d.items())
            else:
                raise Undecided('terminator ' + t.op)
            for tb, c in eds:
                if c is FALSE:
                    continue
                if tb in self.dead_ends:
                    # leads to an error whatever happens: settle it here, so that a
                    # failing check inside a loop is not mistaken for a loop exit
                    ti = tb.insts[-1]
                    fr = self.frames[-1]
                    fr.throws = OR(fr.throws, c)
                    self.note_error(c, mem_b)
                    fr.tsites.append((c, (ti.loc if len(tb.preds) == 1 else t.loc) or ti.loc))
                    continue
                if tb in blocks and tb is not header:
                    inc.setdefault(tb, []).append((b, c, mem_b, None))
                else:
                    out.append((b, tb, c, mem_b, None))
        return out

    def merge_mem(self, ms):
        if len(ms) == 1:
            return ms[0][1]
        bases = {}
        for c, m in ms:
            for bs in m:
                bases[bs] = 1
        res = {}
        for bs in bases:
            objs = [m.get(bs) for c, m in ms]
            if all(o is objs[0] for o in objs):
                res[bs] = objs[0]
                continue
            # heap objects created on one side only stay reachable from there
            have = [(c, o) for (c, m), o in zip(ms, objs) if o is not None]
            if len(have) < len(ms):
                if bs.args[0] in ('heap', 'alloca'):
                    if len(have) == 1:
                        res[bs] = have[0][1]
                        continue
                    lst = have
                else:
                    lst = [(c, o if o is not None else Obj()) for (c, m), o in zip(ms, objs)]
            else:
                lst = [(c, o) for (c, m), o in zip(ms, objs)]
            r = Obj()
            if any(o.arr is not None for c, o in lst):
                arr = None
                for c, o in lst:
                    a = self.as_arr(bs, o).arr
                    arr = a if arr is None or arr is a else mk('A.mux', ARR, c, a, arr)
                r.arr = arr
            else:
                offs = {}
                for c, o in lst:
                    for k, v in o.cells.items():
                        offs[k] = v
                for k, (v0, sz) in offs.items():
                    v = None
                    for c, o in lst:
                        x = self.read_cell(bs, o, k, v0.ty)
                        v = x if v is None else ITE(c, x, v)
                    r.cells[k] = (v, sz)
                cp = [o.copies for c, o in lst]
                if all(x == cp[0] for x in cp):
                    r.copies = cp[0]
                else:
                    # keep whichever exists; reads of unmaterialised ranges become unknown
                    r.copies = ((0, 1 << 40, None, None, 0),)
            f = None
            for c, o in lst:
                f = o.freed if f is None else ITE(c, o.freed, f)
            r.freed = f
            res[bs] = r
        return res

    # ---- memory
    def init_arr(self, bs):
        k = bs.args[0]
        if k in ('alloca', 'heap'):
            return mk('A.undef', ARR, bs)
        return mk('A.init', ARR, bs)

    def as_arr(self, bs, o):
        if o.arr is not None:
            return o
        a = self.init_arr(bs)
        for off, ln, sb, so, soff in o.copies:
            if sb is None:
                return Obj({}, mk('A.unk', ARR, T._unk[0]), (), o.freed)
            a = mk('A.copy', ARR, a, const(I64, off), self.as_arr(sb, so).arr, const(I64, soff), const(I64, ln))
        for off in sorted(o.cells):
            v, sz = o.cells[off]
            a = mk('A.store', ARR, a, const(I64, off), v, sz)
        return Obj({}, a, (), o.freed)

    def read_cell(self, bs, o, off, ty):
        sz = tysize(ty)
        if o.arr is not None:
            return read(o.arr, const(I64, off), ty)
        c = o.cells.get(off)
        if c is not None:
            if tysize(c[0].ty) != sz and not (c[0].ty[0] == 'i' and ty[0] == 'i' and tysize(c[0].ty) > sz):
                return unk(ty, 'size mismatch')
            return conv(c[0], ty)
        for k, (v, s) in o.cells.items():
            if k < off + sz and off < k + s:
                if v.op == 'c' and v.args[0] == 0 and k <= off and off + sz <= k + s:
                    return T.fconst(0.0, ty) if ty[0] == 'f' else NULL if ty[0] == 'p' else const(ty, 0)
                return unk(ty, 'overlap')
        for co, ln, sb, so, soff in reversed(o.copies):
            if co <= off and off + sz <= co + ln:
                if sb is None:
                    return unk(ty, 'merged copy')
                return self.read_cell(sb, so, off - co + soff, ty)
            if co < off + sz and off < co + ln:
                return unk(ty, 'copy overlap')
        return mk('sel', ty, self.init_arr(bs), const(I64, off))

    def obj(self, mem, bs):
        o = mem.get(bs)
        if o is None:
            o = Obj()
            mem[bs] = o
        return o

    def leaf_load(self, mem, p, ty):
        if p.op != 'ptr':
            return unk(ty, 'load')
        bs, off = p.args
        if bs is NULLB or bs.args[0] == 'unk':
            return unk(ty, 'null load')
        o = self.obj(mem, bs)
        if off.op == 'c':
            v = self.read_cell(bs, o, off.args[0], ty)
        else:
            if o.arr is None:
                o = self.as_arr(bs, o)
                mem[bs] = o
            v = read(o.arr, off, ty)
        return v

    def wrap_ptr(self, v):
        """turn loaded pointer terms into (base, 0) pointers"""
        def f(x):
            if x.op == 'sel':
                return ptr(base('ld', x), ZERO)
            return x
        return lift('wrapp', f, v)

    def load(self, mem, p, ty):
        v = lift_local(lambda q: self.leaf_load(mem, q, ty), [p])
        if ty[0] == 'p':
            v = self.wrap_ptr(v)
        return v

    def store_leaf(self, mem, p, v, size, cond):
        if p.op != 'ptr':
            self.poison(mem)
            return
        bs, off = p.args
        if bs is NULLB:
            return
        if bs.args[0] == 'unk':
            self.poison(mem)
            return
        o = self.obj(mem, bs)
        if off.op == 'c' and o.arr is None:
            k = off.args[0]
            old = None
            if cond is not TRUE:
                old = self.read_cell(bs, o, k, v.ty)
                v = ITE(cond, v, old)
            cells = dict(o.cells)
            for q, (_, s) in o.cells.items():
                if q != k and q < k + size and k < q + s or q == k and s > size:
                    # partial overwrite: split zero constants, else give up on the old cell
                    ov = cells.pop(q)
                    if ov[0].op == 'c' and ov[0].args[0] == 0:
                        for z in range(q, q + s):
                            if not k <= z < k + size:
                                cells[z] = (const(('i', 8), 0), 1)
                    else:
                        for z in range(q, q + s):
                            if not k <= z < k + size:
                                cells[z] = (unk(('i', 8), 'split'), 1)
            cells[k] = (v, size)
            mem[bs] = Obj(cells, None, o.copies, o.freed)
            return
        if o.arr is None:
            o = self.as_arr(bs, o)

        def one(off, cond, arr):
            a = mk('A.store', ARR, arr, off, v, size)
            return a if cond is TRUE else mk('A.mux', ARR, cond, a, arr)
        arr = o.arr
        for c, x in leaves(off, cond):
            arr = one(x, c, arr)
        mem[bs] = Obj({}, arr, (), o.freed)

    def store(self, mem, p, v, size):
        ls = leaves(p)
        if len(ls) == 1:
            self.store_leaf(mem, ls[0][1], v, size, TRUE)
        else:
            for c, x in ls:
                self.store_leaf(mem, x, v, size, c)

    def poison(self, mem):
        for bs in list(mem):
            mem[bs] = Obj({}, mk('A.unk', ARR, T._unk[0]), (), mem[bs].freed)
        self.stats['unsolved'].append('store through unknown pointer')

    # ---- obligations
    def note_error(self, P, mem):
        """an error is raised under P: is a watched location different from what it was?"""
        fr = self.frames[-1]
        fr.changed = OR(fr.changed, AND(P, self.differs(mem)))

    def differs(self, mem):
        out = FALSE
        for p, ty, v0 in self.watch:
            v = self.load(dict(mem), p, PTR if ty == 'live' else ty)
            if ty == PTR or ty == 'live':
                # the block must not have been released
                for c, x in leaves(v):
                    if x.op == 'ptr' and x.args[0] is not NULLB and x.args[0] in mem:
                        out = OR(out, AND(c, mem[x.args[0]].freed))
            if v is v0 or ty == 'live':
                continue
            if ty == F64:
                f = lambda o, x, y: lift('fcmp' + o, T.L_FCMP[o], x, y)
                na, nb = f('uno', v, v), f('uno', v0, v0)
                d = OR(f('one', v, v0), OR(AND(na, NOT(nb)), AND(nb, NOT(na))))
            else:
                d = NOT(icmp('eq', v, v0))
            out = OR(out, d)
        return out

    def oblige(self, kind, bad, P, loc):
        b = AND(P, bad)
        self.stats['accesses'] += 1
        self.frames[-1].oblig.append((kind, b, loc))

    def check_access(self, mem, p, size, P, loc, what):
        for c, x in leaves(p):
            if x.op != 'ptr':
                continue
            bs, off = x.args
            k = bs.args[0]
            if bs is NULLB:
                self.oblige('null-' + what, c, P, loc)
                continue
            e = self.ext.get(bs)
            if k == 'alloca' and off.op == 'c':
                continue
            if e is not None:
                # off + size <= ext   (off, ext: byte counts)
                ok = self.inb(off, size, e)
                self.oblige('bounds-' + what, AND(c, NOT(ok)), P, loc)
            o = mem.get(bs)
            if o is not None and o.freed is not FALSE:
                self.oblige('use-after-free-' + what, AND(c, o.freed), P, loc)

    def inb(self, off, size, e):
        def f(o, x):
            if all(k % size == 0 for k in T.coefs(o)) and all(k % size == 0 for k in T.coefs(x)):
                return T.l_ult(T.divall(o, size), T.divall(x, size))
            return AND(ult(o, x), NOT(ult(x, add(o, const(I64, size)))))
        return lift_local(f, [off, e])

    # ---- instructions
    def run_block(self, b, P, mem):
        for i in b.insts:
            op = i.op
            if op == 'call' or op == 'invoke':
                P, dead = self.call(i, P, mem)
                if dead:
                    return P, True
                continue
            if op == 'store':
                v = self.opv(i.ops[0])
                p = self.opv(i.ops[1])
                if isinstance(v, tuple):
                    raise Undecided('aggregate store')
                ty, sz = i.extra
                self.check_access(mem, p, sz, P, i.loc, 'store')
                p = self.live(p, P)
                if v.unk and v.op == 'ite':
                    v = constrain(v, P)
                self.store(mem, p, v, sz)
                continue
            if op == 'load':
                p = self.opv(i.ops[0])
                if i.ty[0] not in 'ifp':
                    raise Undecided('aggregate load')
                self.check_access(mem, p, i.extra, P, i.loc, 'load')
                p = self.live(p, P)
                self.val[i.id] = self.load(mem, p, i.ty)
                continue
            self.val[i.id] = self.simple(i, mem, P)
        return P, False

    def live(self, p, P):
        """drop pointer alternatives that cannot occur on this path"""
        if p.op != 'ite' or P is TRUE:
            return p
        if any(l.op != 'ptr' or l.args[0] is NULLB or l.args[0].args[0] == 'unk' for _, l in T.leaves(p)):
            return constrain(p, P)
        return p

    def simple(self, i, mem, P):
        op = i.op
        if op == 'gep':
            return self.gep(i.extra)
        if op == 'alloca':
            bs = base('alloca', self.F.name, self.site[i.id])
            self.ext[bs] = const(I64, i.extra)
            return ptr(bs, ZERO)
        if op == 'insertvalue':
            a, v = self.opv(i.ops[0]), self.opv(i.ops[1])
            d = dict(a[1]) if isinstance(a, tuple) else {}
            d[tuple(i.extra)] = v
            return ('agg', d)
        if op == 'extractvalue':
            a = self.opv(i.ops[0])
            if isinstance(a, tuple) and tuple(i.extra) in a[1]:
                return a[1][tuple(i.extra)]
            return unk(i.ty, 'extractvalue')
        a = [self.opv(o) for o in i.ops]
        ty = i.ty
        if op == 'select':
            return ITE(a[0], a[1], a[2])
        if op == 'icmp':
            return icmp(i.extra[0], a[0], a[1])
        if op == 'fcmp':
            return lift('fcmp' + i.extra, T.L_FCMP[i.extra], a[0], a[1])
        if op == 'freeze':
            return a[0]
        if ty == B1 and op in ('and', 'or', 'xor'):
            if op == 'and':
                return AND(a[0], a[1])
            if op == 'or':
                return OR(a[0], a[1])
            return ITE(a[0], NOT(a[1]), a[1])
        if op in ('add', 'sub', 'mul'):
            if ty[1] < 64 and not i.nsw and not all(x.op == 'c' for x in a):
                if not (op == 'add' and a[1].op == 'c' and False):
                    return lift('w' + op, lambda x, y: mk('w' + op, ty, x, y), a[0], a[1])
            return {'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1])
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if a[1].op != 'c' or a[1].args[0] == 0:
                self.oblige('div-by-zero', eq(a[1], const(ty, 0)), P, i.loc)
            return T.build(op, ty, (a[0], a[1]))
        if op in T.L_BIN:
            if op == 'shl' and ty[1] < 64 and not i.nsw:
                return lift('wshl', lambda x, y: mk('wshl', ty, x, y), a[0], a[1])
            return lift(op, T.L_BIN[op], a[0], a[1])
        if op in T.L_FBIN:
            return lift(op, T.L_FBIN[op], a[0], a[1])
        if op == 'fneg':
            return lift(op, T.l_fneg, a[0])
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            x = a[0]
            if x.ty == B1:
                if op == 'zext':
                    return ITE(x, const(ty, 1), const(ty, 0))
                if op == 'sext':
                    return ITE(x, const(ty, -1), const(ty, 0))
                if op in ('uitofp',):
                    return ITE(x, T.fconst(1.0, ty), T.fconst(0.0, ty))
                if op == 'sitofp':
                    return ITE(x, T.fconst(-1.0, ty), T.fconst(0.0, ty))
            f = T.CONV[op]
            return lift(op + str(ty), lambda z: f(z, ty), x)
        if op in ('fpext', 'fptrunc'):
            return lift(op + str(ty), lambda z: mk(op, ty, z), a[0])
        if op == 'ptrtoint':
            return lift('p2i', l_p2i, a[0])
        if op == 'bitcast':
            return conv(a[0], ty)
        return unk(ty, op) if ty[0] in 'ifp' else ('agg', {})

    # ---- calls
    def call(self, i, P, mem):
        fr = self.frames[-1]
        nm = i.extra[1] if i.extra[0] == 'fn' else '?'
        a = [self.opv(o) if o[0] != 'md' else None for o in i.ops]

        def setv(v):
            if i.ty[0] != 'void':
                self.val[i.id] = v
        if nm == 'vf_throw' or nm in ('__cxa_throw', '_ZSt17__throw_bad_allocv', '__cxa_rethrow', 'abort', 'exit',
                                      '_ZSt9terminatev', '__cxa_throw_bad_array_new_length', '__assert_fail') or \
                nm.startswith('_ZSt20__throw_') or nm.startswith('_ZSt24__throw_') or nm.startswith('_ZSt19__throw_') \
                or nm.startswith('_ZSt28__throw'):
            fr.throws = OR(fr.throws, P)
            self.note_error(P, mem)
            fr.tsites.append((P, i.loc))
            if nm == '__cxa_throw' and a[1].op == 'ptr' and a[1].args[0].args[1] != '_ZTISt13runtime_error':
                self.oblige('exception-type', P, P, i.loc)
            return P, True
        if nm == 'vf_assume':
            c = a[0]
            fr.asm = AND(fr.asm, OR(NOT(P), c))
            fr.asms.append(OR(NOT(P), c))
            return P, False
        if nm == 'vf_warn':
            fr.warned = OR(fr.warned, AND(P, NOT(a[0])))
            fr.wsites.append((AND(P, NOT(a[0])), i.loc))
            return P, False
        if nm == 'vf_flag':
            self.flags |= a[0].args[0]
            return P, False
        if nm.startswith('vf_watch_'):
            ty = {'z': I64, 'i': I32, 'b': ('i', 8), 'd': F64, 'p': PTR, 'live': 'live'}[nm[9:]]
            self.watch.append((a[0], ty, None if ty == 'live' else self.load(mem, a[0], ty)))
            return P, False
        if nm == 'vf_buffer':
            for c, x in leaves(a[0]):
                if x.op == 'ptr':
                    self.ext[x.args[0]] = a[1]
            return P, False
        if nm == 'vf_owned':
            for c, x in leaves(a[0]):
                if x.op == 'ptr':
                    self.owned[x.args[0]] = a[1]
            return P, False
        if nm.startswith('vf_out'):
            tag = a[0].args[0]
            old = fr.outs.get(tag)
            v = a[1]
            fr.outs[tag] = (P, v) if old is None else (OR(P, old[0]), ITE(P, v, old[1]))
            return P, False
        if nm.startswith('vf_mem_free'):
            return P, False
        if nm in ('_Znwm', '_Znam', 'malloc'):
            if self.watch:
                fr.achanged = OR(fr.achanged, AND(P, self.differs(mem)))
                self.stats['allocations'] = self.stats.get('allocations', 0) + 1
            bs = base('heap', self.site[i.id], *self.binders)
            self.ext[bs] = a[0]
            mem[bs] = Obj()
            setv(ptr(bs, ZERO))
            return P, False
        if nm in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            for c, x in leaves(a[0]):
                if x.op != 'ptr':
                    continue
                bs, off = x.args
                if bs is NULLB:
                    continue
                o = self.obj(mem, bs)
                kind = bs.args[0]
                bad = o.freed
                if kind == 'ld':
                    ow = self.owned.get(bs)
                    isn = T.base_eq(bs, NULLB)
                    bad = AND(NOT(isn), OR(bad, NOT(ow)) if ow is not None else bad)
                elif kind != 'heap':
                    bad = TRUE
                if off is not ZERO:
                    bad = OR(bad, NOT(eq(off, ZERO)))
                self.oblige('free', AND(c, bad), P, i.loc)
                mem[bs] = Obj(o.cells, o.arr, o.copies, ITE(c, TRUE, o.freed))
            return P, False
        if nm.startswith('llvm.'):
            return self.intrinsic(nm, i, a, P, mem, setv)
        short = nm
        m = re.match(r'_ZSt\d+(\w+?)[dfi]+$', nm)
        if nm in PURE or nm.rstrip('f') in PURE:
            setv(lift('call' + nm, lambda *x: T.mk_call(i.ty, nm, *x), *a))
            return P, False
        if nm.startswith('vf_pure') or nm.startswith('_ZN2vf'):
            aa = [x if x.ty[0] != 'p' else lift('p2i', l_p2i, x) for x in a]
            setv(lift('call' + nm, lambda *x: T.mk_call(i.ty, nm, *x), *aa))
            return P, False
        if '__cxa_guard' in nm or nm == '__cxa_atexit':
            setv(const(i.ty, 1) if i.ty[0] == 'i' else unk(i.ty))
            return P, False
        if nm.startswith('__cxa_') or '_ZNSt12out_of_range' in nm:
            setv(unk(i.ty, nm))
            return P, False
        if nm == 'strlen' and a[0].op == 'ptr' and a[0].args[1] is ZERO and a[0].args[0].args[0] == 'glob':
            b = self.mod.strings.get(a[0].args[0].args[1])
            if b is not None and b'\0' in b:
                setv(const(I64, b.index(b'\0')))
                return P, False
        # everything else: an observable event
        self.unknown_calls.add(nm)
        fr.events.append((P, nm, tuple(x for x in a if x is not None and not isinstance(x, tuple))))
        if i.ty[0] == 'p' and a and a[0] is not None and a[0].ty[0] == 'p':
            setv(a[0])
        elif i.ty[0] != 'void':
            setv(unk(i.ty, nm) if i.ty[0] in 'ifp' else ('agg', {}))
        return P, False

    def intrinsic(self, nm, i, a, P, mem, setv):
        ty = i.ty
        if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.invariant', 'llvm.donothing', 'llvm.stack')):
            if ty[0] != 'void':
                setv(unk(ty, nm))
            return P, False
        if nm.startswith('llvm.umul.with.overflow'):
            setv(('agg', {(0,): mul(a[0], a[1]), (1,): FALSE}))
            return P, False
        if nm.startswith('llvm.uadd.with.overflow'):
            setv(('agg', {(0,): add(a[0], a[1]), (1,): FALSE}))
            return P, False
        if nm.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            c = icmp(nm[5] + 'lt', a[0], a[1])
            setv(ITE(c, a[1], a[0]) if 'max' in nm[:10] else ITE(c, a[0], a[1]))
            return P, False
        if nm.startswith('llvm.abs'):
            c = icmp('slt', a[0], const(ty, 0))
            setv(ITE(c, sub(const(ty, 0), a[0]), a[0]))
            return P, False
        if nm.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copy(mem, a[0], a[1], a[2], P, i.loc)
            return P, False
        if nm.startswith('llvm.memset'):
            for c, d in leaves(a[0]):
                if d.op != 'ptr':
                    self.poison(mem)
                    continue
                bs, off = d.args
                o = self.obj(mem, bs)
                if bs in self.ext:
                    self.range_ob(bs, off, a[2], c, P, i.loc, 'memset')
                if a[2].op == 'c' and off.op == 'c' and o.arr is None and a[1].op == 'c' and a[1].args[0] == 0 and c is TRUE:
                    k, ln = off.args[0], a[2].args[0]
                    cells = {q: v for q, v in o.cells.items() if not (q < k + ln and k < q + v[1])}
                    if ln <= 4096:
                        z = k
                        cells[k] = (const(('i', 8 * ln), 0), ln)
                        mem[bs] = Obj(cells, None, o.copies, o.freed)
                        continue
                o = self.as_arr(bs, o)
                arr = mk('A.set', ARR, o.arr, off, a[1], a[2]) if off.op != 'ite' and a[2].op != 'ite' else None
                if arr is None:
                    arr = o.arr
                    for c1, oo in leaves(off):
                        for c2, ll in leaves(a[2]):
                            arr = mk('A.mux', ARR, AND(c1, c2), mk('A.set', ARR, o.arr, oo, a[1], ll), arr)
                if c is not TRUE:
                    arr = mk('A.mux', ARR, c, arr, o.arr)
                mem[bs] = Obj({}, arr, (), o.freed)
            return P, False
        m = re.match(r'llvm\.(\w+)\.f(64|32)', nm)
        if m:
            f = m.group(1)
            if f == 'fmuladd' or f == 'fma':
                setv(lift('fadd', T.L_FBIN['fadd'], lift('fmul', T.L_FBIN['fmul'], a[0], a[1]), a[2]))
                return P, False
            setv(lift('call' + f, lambda *x: T.mk_call(ty, f, *x), *a))
            return P, False
        if nm.startswith('llvm.expect'):
            setv(a[0])
            return P, False
        if nm.startswith('llvm.is.constant'):
            setv(FALSE)
            return P, False
        if nm.startswith('llvm.fabs') or nm.startswith('llvm.is.fpclass'):
            if nm.startswith('llvm.is.fpclass'):
                setv(lift('fpclass', lambda *x: self.fpclass(*x), a[0], a[1]))
            return P, False
        if nm.startswith('llvm.eh.') or nm.startswith('llvm.trap'):
            setv(unk(ty)) if ty[0] != 'void' else None
            return P, nm.startswith('llvm.trap')
        self.unknown_calls.add(nm)
        if ty[0] != 'void':
            setv(unk(ty, nm) if ty[0] in 'ifp' else ('agg', {}))
        return P, False

    def fpclass(self, x, m):
        """isnan / isinf etc. as class tests"""
        v = m.args[0]
        if v == 3:
            return T.L_FCMP['uno'](x, x)
        inf = T.fconst(float('inf'))
        r = FALSE
        if v & 3:
            if (v & 3) != 3:
                return T.atom('fpclass', v, x)
            r = OR(r, T.L_FCMP['uno'](x, x))
            v &= ~3
        if v & 512:
            r = OR(r, T.L_FCMP['oeq'](x, inf)); v &= ~512
        if v & 4:
            r = OR(r, T.L_FCMP['oeq'](x, T.fconst(float('-inf')))); v &= ~4
        if v:
            return T.atom('fpclass', m.args[0], x)
        return r

    def range_ob(self, bs, off, ln, c, P, loc, what):
        e = self.ext[bs]
        bad = AND(NOT(eq(ln, ZERO)), ult(e, add(off, ln)))
        self.oblige('bounds-' + what, AND(c, bad), P, loc)

    def copy(self, mem, dst, src, ln, P, loc):
        ds, ss = leaves(dst), leaves(src)
        snap = dict(mem)
        for cd, d in ds:
            for cs, s in ss:
                c = AND(cd, cs)
                if c is FALSE:
                    continue
                if d.op != 'ptr' or s.op != 'ptr':
                    self.poison(mem)
                    continue
                db, do = d.args
                sb, so = s.args
                if sb is NULLB or db is NULLB:
                    self.oblige('null-copy', AND(c, NOT(eq(ln, ZERO))), P, loc)
                    continue
                if sb in self.ext:
                    self.range_ob(sb, so, ln, c, P, loc, 'load')
                if db in self.ext:
                    self.range_ob(db, do, ln, c, P, loc, 'store')
                for bs in (db, sb):
                    o = mem.get(bs)
                    if o is not None and o.freed is not FALSE:
                        self.oblige('use-after-free-copy', AND(c, o.freed), P, loc)
                o = self.obj(mem, db)
                sobj = snap.get(sb) or Obj()
                if c is TRUE and ln.op == 'c' and do.op == 'c' and so.op == 'c' and o.arr is None and sobj.arr is None:
                    k, n, q = do.args[0], ln.args[0], so.args[0]
                    cells = {x: v for x, v in o.cells.items() if not (x < k + n and k < x + v[1])}
                    for x, v in sobj.cells.items():
                        if x < q + n and q < x + v[1]:
                            if q <= x and x + v[1] <= q + n:
                                cells[x - q + k] = v
                            else:
                                cells[max(x, q) - q + k] = (unk(v[0].ty, 'partial copy'), v[1])
                    mem[db] = Obj(cells, None, o.copies + ((k, n, sb, Obj({}, None, sobj.copies, FALSE), q),), o.freed)
                    continue
                oa = self.as_arr(db, o)
                sa = self.as_arr(sb, sobj)
                arr = oa.arr
                for c1, x in leaves(do):
                    for c2, y in leaves(so):
                        for c3, z in leaves(ln):
                            cc = AND(c, AND(c1, AND(c2, c3)))
                            n = mk('A.copy', ARR, oa.arr, x, sa.arr, y, z)
                            arr = n if cc is TRUE else mk('A.mux', ARR, cc, n, arr)
                mem[db] = Obj({}, arr, (), o.freed)

    # ---- loops
    def run_loop(self, h, L, inc):
        self.stats['loops'] += 1
        P = FALSE
        for e in inc:
            P = OR(P, e[1])
        if P is FALSE:
            return []
        rel = [constrain(e[1], P) for e in inc]
        inits = []
        entry_preds = [e[0] for e in inc]
        for ph in h.phis:
            v = None
            for e, r in zip(inc, rel):
                o = next(o for o, pb in ph.ops if pb is e[0])
                x = self.opv(o)
                if isinstance(x, tuple):
                    raise Undecided('aggregate phi')
                if e[3] is not None:
                    x = e[3](x)
                v = x if v is None else ITE(r, x, v)
            inits.append(v)
        mem0 = self.merge_mem([(r, e[2]) for e, r in zip(inc, rel)])
        mods = self.mods.setdefault(h.idx, {})     # key -> True
        k = fresh_bv(I64, 'k')
        for attempt in range(12):
            st = self.loop_body(h, L, mem0, inits, mods, k)
            new = self.find_mods(st)
            if not (new - set(mods)):
                break
            for x in new:
                mods[x] = True
        else:
            raise Undecided('loop effects do not stabilise')
        return self.finish_loop(h, st, P, mem0, k)

    def placeholder(self, init):
        """(value used in the body, delta/phi variable, init of that variable)"""
        if init.ty[0] == 'p':
            x = fresh_bv(I64, 'o')

            def f(p):
                if p.op == 'ptr':
                    return lift_local(lambda z: ptr(p.args[0], z), [add(p.args[1], x)])
                return unk(PTR, 'ptr phi')
            return lift_local(f, [init]), x, ZERO
        x = fresh_bv(init.ty, 'o')
        if init.ty == B1:
            return T.raw_ite(x, TRUE, FALSE), x, init
        return x, x, init

    def next_of(self, init, nxt, x):
        if init.ty[0] == 'p':
            def f(n, i):
                if n.op == 'ptr' and i.op == 'ptr' and n.args[0] is i.args[0]:
                    return sub(n.args[1], i.args[1])
                return unk(I64, 'pointer recurrence')
            return lift_local(f, [nxt, init])
        return nxt

    def loop_body(self, h, L, mem0, inits, mods, k):
        st = {}
        states = []     # (x, init, key)
        for ph, init in zip(h.phis, inits):
            v, x, i0 = self.placeholder(init)
            self.val[ph.id] = v
            states.append([x, i0, ('phi', ph, init)])
        mem = dict(mem0)
        arrb = {key[1] for key in mods if key[0] == 'arr'}
        for key in mods:
            if key[0] == 'arr':
                bs = key[1]
                o = self.as_arr(bs, self.obj(mem, bs))
                xa = fresh_bv(ARR, 'oA')
                states.append([xa, o.arr, key])
                mem[bs] = Obj({}, xa, (), mem[bs].freed if bs in mem else FALSE)
        for key in mods:
            if key[0] == 'cell' and key[1] not in arrb:
                bs, off, ty, sz = key[1:]
                o = self.obj(mem, bs)
                init = self.read_cell(bs, o, off, ty)
                if ty[0] == 'p':
                    init = self.wrap_ptr(init)
                v, x, i0 = self.placeholder(init)
                states.append([x, i0, key + (init,)])
                cells = {q: w for q, w in o.cells.items() if not (q < off + sz and off < q + w[1])}
                cells[off] = (v, sz)
                mem[bs] = Obj(cells, None, o.copies, o.freed)
            elif key[0] == 'freed':
                bs = key[1]
                o = self.obj(mem, bs)
                x = fresh_bv(B1, 'o')
                states.append([x, o.freed, key])
                mem[bs] = Obj(o.cells, o.arr, o.copies, T.raw_ite(x, TRUE, FALSE))
        self.frames.append(Frame())
        self.binders.append(k)
        nrets = len(self.rets)
        try:
            out = self.run_region(L, h, TRUE, mem, h)
        finally:
            fr = self.frames.pop()
            self.binders.pop()
        if len(self.rets) != nrets:
            raise Undecided('return inside loop')
        latch = [e for e in out if e[1] is h]
        exits = [e for e in out if e[1] is not h]
        st.update(states=states, mem=mem, latch=latch, exits=exits, fr=fr, arrb=arrb)
        LC = FALSE
        for e in latch:
            LC = OR(LC, e[2])
        st['LC'] = LC
        if latch:
            rel = [constrain(e[2], LC) for e in latch]
            st['lmem'] = self.merge_mem([(r, e[3]) for e, r in zip(latch, rel)])
            nx = []
            for ph in h.phis:
                v = None
                for e, r in zip(latch, rel):
                    o = next(o for o, pb in ph.ops if pb is e[0])
                    x = self.opv(o)
                    if e[4] is not None:
                        x = e[4](x)
                    v = x if v is None else ITE(r, x, v)
                nx.append(v)
            st['pnext'] = nx
        else:
            st['lmem'] = mem
            st['pnext'] = None
        return st

    def find_mods(self, st):
        res = set()
        mem, lm = st['mem'], st['lmem']
        for bs, o in lm.items():
            e = mem.get(bs)
            if o is e:
                continue
            if bs.args[0] == 'heap' and any(b in bs.fv for b in bs.fv if e is None):
                continue    # allocated inside this iteration
            if e is None:
                if bs.args[0] in ('heap',):
                    continue
                e = Obj()
            if o.freed is not e.freed:
                res.add(('freed', bs))
            if o.arr is not None:
                if e.arr is not o.arr:
                    if e.arr is None and self.as_arr(bs, e).arr is o.arr:
                        continue
                    res.add(('arr', bs))
                continue
            for off, (v, sz) in o.cells.items():
                c = e.cells.get(off)
                if c is not None and c[0] is v:
                    continue
                if c is None and self.read_cell(bs, e, off, v.ty) is v:
                    continue
                if c is None and v.ty[0] == 'p' and self.wrap_ptr(self.read_cell(bs, e, off, v.ty)) is v:
                    continue
                ty = v.ty
                if ty[0] == 'i' and sz != tysize(ty):
                    res.add(('arr', bs))
                    continue
                res.add(('cell', bs, off, ty, sz))
        return res

    def finish_loop(self, h, st, P, mem0, k):
        states = st['states']
        nxt = {}
        for n, (x, i0, key) in enumerate(states):
            if st['pnext'] is None:
                nxt[x] = i0
            elif key[0] == 'phi':
                nxt[x] = self.next_of(key[2], st['pnext'][[p for p in h.phis].index(key[1])], x)
            elif key[0] == 'arr':
                o = st['lmem'].get(key[1])
                nxt[x] = self.as_arr(key[1], o).arr if o is not None else x
            elif key[0] == 'freed':
                nxt[x] = st['lmem'][key[1]].freed
            else:
                bs, off, ty, sz, init = key[1:]
                o = st['lmem'].get(bs)
                v = self.read_cell(bs, o, off, ty)
                if ty[0] == 'p':
                    v = self.wrap_ptr(v)
                nxt[x] = self.next_of(init, v, x)
        fr = st['fr']
        LC, TC = st['LC'], fr.throws
        # values carried round the back edge are only meaningful under LC
        for x in nxt:
            if nxt[x].ty != ARR and nxt[x].op == 'ite':
                nxt[x] = constrain(nxt[x], LC)
        sol = self.solve(nxt, {x: i0 for x, i0, _ in states}, k, LC)
        S = lambda v: subst(v, sol)
        E = FALSE
        ex = []
        for e in st['exits']:
            c = S(e[2])
            ex.append(c)
            E = OR(E, c)
        TC = S(TC)
        asm = S(fr.asm)
        care = AND(NOT(TC), asm)
        Ek = constrain(E, care) if care is not FALSE else E
        if len(T.atoms_of(E)) <= len(T.atoms_of(Ek)):
            Ek = E
        # inside the body the index is below the trip count
        dead = False
        K = T.mk_first(k, Ek)
        if not st['exits'] or Ek is FALSE:
            # no way out but an error: the loop runs up to its first failing iteration
            dead = True
            K = T.mk_first(k, TC) if TC is not FALSE else unk(I64, 'no exit')
        K1 = add(K, ONE)
        notE = NOT(Ek)

        def quant(c):
            """exists iteration where c"""
            c = S(c)
            if c is FALSE:
                return FALSE
            if not dead and AND(c, Ek) is FALSE:
                return T.mk_any(k, K, constrain(c, notE))
            return T.mk_any(k, K1, c)
        up = self.frames[-1]
        thrown = quant(fr.throws)
        if fr.changed is not FALSE:
            # the state at the first iteration that fails
            first = subst(S(fr.changed), {k: T.mk_first(k, TC)}) if TC is not FALSE else S(fr.changed)
            up.changed = OR(up.changed, AND(P, AND(thrown, first)))
        if fr.achanged is not FALSE:
            up.achanged = OR(up.achanged, AND(P, quant(fr.achanged)))
        asmviol = quant(NOT(fr.asm))
        up.asm = AND(up.asm, OR(NOT(P), NOT(asmviol)))
        if asmviol is not FALSE:
            up.asms.append(OR(NOT(P), NOT(asmviol)))
        up.throws = OR(up.throws, AND(P, thrown))
        up.warned = OR(up.warned, AND(P, quant(fr.warned)))
        for c, l in fr.tsites:
            up.tsites.append((AND(P, quant(c)), l))
        for c, l in fr.wsites:
            up.wsites.append((AND(P, quant(c)), l))
        for kind, bad, loc in fr.oblig:
            if bad is FALSE:
                up.oblig.append((kind, FALSE, loc))
            else:
                # obligations are checked on iterations reached without a throw before them
                up.oblig.append((kind, AND(P, quant(bad)), loc))
        if fr.outs:
            raise Undecided('output inside loop')
        if fr.events:
            up.events.append((P, 'loop', (k, K, [(self.sev(c, S), nm, self.sargs(a, S)) for c, nm, a in fr.events])))
        P2 = AND(P, NOT(thrown))
        res = []
        mK = {k: K}
        cache = {}

        def fin(v):
            r = cache.get(v)
            if r is None:
                r = subst(subst(v, sol), mK)
                cache[v] = r
            return r
        for e, c in zip(st['exits'], ex):
            cc = constrain(constrain(c, care) if care is not FALSE else c, Ek)
            cK = subst(cc, mK)
            Pe = AND(P2, cK)
            if Pe is FALSE:
                continue
            vf0 = e[4]
            vf = (lambda v, g=vf0: fin(g(v) if g is not None else v))
            m2 = {}
            for bs, o in e[3].items():
                if k in bs.fv:
                    continue
                o0 = mem0.get(bs)
                if o is o0:
                    m2[bs] = o
                    continue
                m2[bs] = Obj({q: (fin(v), sz) for q, (v, sz) in o.cells.items()},
                             fin(o.arr) if o.arr is not None else None, o.copies, fin(o.freed))
            res.append((e[0], e[1], Pe, m2, vf))
        if K.unk:
            self.stats['unsolved'].append('trip count %s' % (h.insts[0].loc[0] if h.insts and h.insts[0].loc else '?',))
        self.last_K = K
        return res

    def sev(self, c, S):
        return S(c)

    def sargs(self, a, S):
        out = []
        for x in a:
            if isinstance(x, N):
                out.append(S(x))
            elif isinstance(x, tuple):
                out.append(self.sargs(x, S))
            elif isinstance(x, list):
                out.append([(S(c), nm, self.sargs(b, S)) for c, nm, b in x])
            else:
                out.append(x)
        return tuple(out)

    # ---- recurrences
    def solve(self, nxt, init, k, LC):
        sol = {}
        U = dict(nxt)
        progress = True
        while U and progress:
            progress = False
            for x in list(U):
                n = subst(U[x], sol) if sol else U[x]
                U[x] = n
                deps = {y for y in n.fv if y in U}
                r = None
                if x.ty == ARR:
                    if deps <= {x}:
                        r = self.solve_arr(x, n, init[x], k)
                elif n.unk:
                    r = unk(x.ty, 'pbase' if T.lost_base(n) else 'rec')
                elif n is x or (x.ty == B1 and n is T.raw_ite(x, TRUE, FALSE)):
                    r = init[x]
                elif not deps:
                    if k not in n.fv and n is init[x]:
                        r = n
                    else:
                        r = ITE(eq(k, ZERO), init[x], subst(n, {k: sub(k, ONE)}))
                elif deps == {x}:
                    r = self.solve_one(x, n, init[x], k)
                if r is not None:
                    sol[x] = r
                    del U[x]
                    progress = True
        if U:
            self.solve_rec(U, init, k, sol)
        return sol

    def solve_one(self, x, n, i0, k):
        ty = x.ty
        if ty[0] == 'i' and ty[1] > 1:
            d = sub(n, x)
            kk = k if ty == I64 else T.l_trunc(k, ty)
            if x not in d.fv:
                if k not in d.fv:
                    if ty == I64 or d.op == 'c':
                        return add(i0, mul(d, kk))
                    return add(i0, mul(d, kk))
                j = fresh_bv(I64, 'k')
                return add(i0, T.mk_sum(j, k, subst(d, {k: j})))
            w = self.wrap(x, n, i0, k)
            if w is not None:
                return w
        return None

    def wrap(self, x, n, i0, k):
        """x' = (x+1 hits n) ? r : x+1"""
        if n.op != 'ite' or x.ty != I64:
            return None
        at = T.atoms_of(n)
        if len(at) != 1:
            return None
        a = n.args[0]
        hi, lo = n.args[1], n.args[2]
        x1 = add(x, ONE)
        if lo is x1 and x not in hi.fv:
            r, hit = hi, True
        elif hi is x1 and x not in lo.fv:
            r, hit = lo, False
        else:
            return None
        if k in r.fv or r.op == 'ite':
            return None
        if a.op == 'eq0' and hit:
            l = T.lin(a.args[0], x)
            if l is None or l[0] not in (1, -1):
                return None
            c, rest = l
            # c*x + rest == 0  ->  x == -rest/c ; n = x_hit + 1
            xh = T.l_neg(rest) if c == 1 else rest
            m = add(xh, ONE)
        elif a.op == 'ult' and not hit:
            l, rr = T.lin(a.args[0], x), T.lin(a.args[1], x)
            if l is None or rr is None or l[0] != 1 or rr[0] != 0 or l[1] is not ONE:
                return None
            m = rr[1]
        elif a.op == 'ult' and hit:
            # n < x+2  <=> n <= x+1
            l, rr = T.lin(a.args[0], x), T.lin(a.args[1], x)
            if l is None or rr is None or l[0] != 0 or rr[0] != 1 or rr[1] is not const(I64, 2):
                return None
            m = l[1]
        else:
            return None
        if k in m.fv:
            return None
        ok = AND(ult(i0, m), ult(r, m))
        if i0 is r:
            ok = ult(i0, m)
        val = add(r, T.build('urem', I64, (add(k, sub(i0, r)), sub(m, r))))
        if ok is TRUE:
            return val
        sol = {}
        self.solve_rec({x: n}, {x: i0}, k, sol)
        # with the hit never reached the counter just counts
        alt = sol[x]
        if a.op == 'eq0' and i0 is r:
            alt = add(i0, k)
        return ITE(ok, val, alt)

    def solve_rec(self, U, init, k, sol):
        sc = list(U)
        if any(U[x].unk for x in U):
            for x in U:
                self.stats['unsolved'].append('recurrence')
                sol[x] = mk('A.unk', ARR, T._unk[0]) if x.ty == ARR else unk(x.ty, 'pbase' if any(T.lost_base(U[y]) for y in U) else 'recurrence')
            return
        # dependency closure per variable
        for x in sc:
            need = [x]
            for y in need:
                for z in sorted((z for z in U[y].fv if z in U), key=lambda t: t.id):
                    if z not in need:
                        need.append(z)
            j = fresh_bv(I64, 'k')
            fs = [fresh_bv(y.ty, 'o') for y in need]
            m = dict(zip(need, fs))
            # boolean state variables appear as atoms
            m[k] = j
            nx = tuple(subst(U[y], m) for y in need)
            sol[x] = close('rec', x.ty, [j] + fs, k, tuple(init[y] for y in need), nx)
            if x.ty == B1:
                sol[x] = T.raw_ite(sol[x], TRUE, FALSE)

    # arrays written in loops
    def linear(self, n, x):
        """chain n on top of x -> [(guard, op, args)] oldest first, or None"""
        eff = []
        guard = TRUE
        while n is not x:
            if n.op == 'A.store':
                eff.append((TRUE, 'w', n.args[1:]))
                n = n.args[0]
            elif n.op == 'A.fill':
                eff.append((TRUE, 'f', n))
                n = n.args[1]
            elif n.op == 'A.loop':
                eff.append((TRUE, 'l', n))
                n = n.args[1]
            elif n.op in ('A.copy', 'A.set'):
                eff.append((TRUE, 'o', n))
                n = n.args[0]
            elif n.op == 'A.mux':
                c, a, b = n.args
                anc = self.common(a, b, x)
                if anc is None:
                    return None
                la, lb = self.linear(a, anc), self.linear(b, anc)
                if la is None or lb is None:
                    return None
                for g, o, ar in reversed(lb):
                    eff.append((AND(g, NOT(c)), o, ar))
                for g, o, ar in reversed(la):
                    eff.append((AND(g, c), o, ar))
                n = anc
            else:
                return None
        eff.reverse()
        return eff

    def preds_of(self, n):
        if n.op in ('A.store', 'A.copy', 'A.set'):
            return [n.args[0]]
        if n.op in ('A.fill', 'A.loop'):
            return [n.args[1]]
        if n.op == 'A.mux':
            return [n.args[1], n.args[2]]
        return []

    def common(self, a, b, x):
        seen = set()
        w = [a]
        while w:
            n = w.pop()
            if n in seen:
                continue
            seen.add(n)
            w.extend(self.preds_of(n))
        n = b
        while n not in seen:
            ps = self.preds_of(n)
            if not ps:
                return None
            if len(ps) == 2:
                n = self.common(ps[0], ps[1], x)
                if n is None:
                    return None
            else:
                n = ps[0]
        return n

    def solve_arr(self, x, n, a0, k):
        bad = mk('A.unk', ARR, T._unk[0])
        if n is x:
            return a0
        if n.unk:
            self.stats['unsolved'].append('array')
            return bad
        eff = self.linear(n, x)
        if eff is None:
            return None
        # reads of the array being written
        def uses(e):
            if e[0].fv and x in e[0].fv:
                return True
            if e[1] == 'w':
                return any(isinstance(z, N) and x in z.fv for z in e[2])
            if e[1] == 'f':
                return any(x in z.fv for z in e[2].args[2:] if isinstance(z, N))
            return True
        j = fresh_bv(I64, 'k')
        if any(e[1] == 'o' for e in eff) or any(uses(e) for e in eff):
            r = self.try_prev(eff, x, a0, k)
            if r is None:
                return None         # left to the mutual recurrence
            eff = r
        gs = {e[0] for e in eff}
        if len(gs) == 1 and eff[0][0] is not TRUE and k not in eff[0][0].fv and x not in eff[0][0].fv:
            # one loop-invariant guard: hoist it out of the comprehension
            g = eff[0][0]
            inner = self.close_eff([(TRUE, o, ar) for _, o, ar in eff], x, a0, k, j)
            return mk('A.mux', ARR, g, inner, a0) if inner is not None else None
        return self.close_eff(eff, x, a0, k, j)

    def close_eff(self, eff, x, a0, k, j):
        bad = mk('A.unk', ARR, T._unk[0])
        if len(eff) == 1 and eff[0][0] is TRUE and eff[0][1] == 'w':
            off, val, sz = eff[0][2]
            if off.op != 'ite':
                l = T.lin(off, k)
                if l is not None and l[0] != 0 and abs(l[0]) >= sz:
                    return close('A.fill', ARR, [j], a0, l[1], const(I64, l[0]), k, subst(val, {k: j}), sz)
        if len(eff) == 1 and eff[0][0] is TRUE and eff[0][1] == 'f':
            r = self.flatten(eff[0][2], a0, k)
            if r is not None:
                return r
        effs = []
        for g, o, ar in eff:
            if o == 'w':
                effs.append((subst(g, {k: j}), 'w') + tuple(subst(z, {k: j}) if isinstance(z, N) else z for z in ar))
            elif o in ('f', 'l'):
                # inner comprehension, rebased on an empty array
                nil = mk('A.nil', ARR)
                fb, body = T.open_binder(ar)
                ar2 = close(ar.op, ARR, fb, nil, *body[1:])
                effs.append((subst(g, {k: j}), 'f', subst(ar2, {k: j})))
            else:
                return None
        return close('A.loop', ARR, [j], a0, k, tuple(effs))

    def try_prev(self, eff, x, a0, k):
        """single strided write; reads only at or ahead of the write position"""
        if len(eff) != 1 or eff[0][1] != 'w':
            return None
        g, o, (off, val, sz) = eff[0]
        if off.op == 'ite' or x in off.fv or x in g.fv:
            return None
        l = T.lin(off, k)
        if l is None or l[0] == 0:
            return None
        ok = [True]

        def visit(n, seen):
            if n in seen or x not in n.fv:
                return
            seen.add(n)
            if n.op == 'sel' and n.args[0] is x:
                d = sub(n.args[1], off)
                if d.op != 'c' or (d.args[0] < 0) != (l[0] < 0) and d.args[0] != 0:
                    ok[0] = False
            elif n.op.startswith('A.'):
                ok[0] = False
            else:
                for c in T.walk(n.args):
                    visit(c, seen)
        visit(val, set())
        if not ok[0]:
            return None
        v2 = subst(val, {x: a0})
        return [(g, 'w', (off, v2, sz))]

    def flatten(self, f, a0, k):
        """outer loop over a dense inner fill -> one fill"""
        fb, body = T.open_binder(f)
        prev, start, stride, count, val, sz = body
        if k in count.fv or start.op == 'ite' or count.op == 'ite':
            return None
        l = T.lin(start, k) if k in start.fv else None
        st = stride.args[0]
        d, _ = T.poly(start)[1], 0
        # start = s0 + k*(stride*count)
        want = T.l_mul(k, T.l_mul(count, stride))
        s0 = T.l_sub(start, want)
        if k in s0.fv:
            return None
        q = fresh_bv(I64, 'k')
        v2 = subst(val, {k: T.l_udiv(q, count), fb[0]: T.l_urem(q, count)})
        return close('A.fill', ARR, [q], a0, s0, stride, mul(k, count), v2, sz)
