"""Output events: what a function writes to a stream, as a list of tokens under a valuation."""
import re
import term as T
import valu

TXT = ('_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l', '_ZNSo5writeEPKcl')
CAP = 4000


def stream_of(a, V, env):
    p = V.ev(a, env)
    b = p[1] if isinstance(p, tuple) and p[0] == 'ptr' else None
    s = repr(b)
    if '_ZSt4cout' in s:
        return 'out'
    if '_ZSt4cerr' in s or '_ZSt4clog' in s:
        return 'err'
    raise valu.Unk('stream')


class Tok:
    def __init__(self, S, V):
        self.S, self.V, self.out = S, V, []
        self.alpha = {}
        self.names = S.E.mod.strings

    def text(self, st, s):
        if not s:
            return
        if self.out and self.out[-1][0] == 'text' and self.out[-1][1] == st:
            self.out[-1] = ('text', st, self.out[-1][2] + s)
        else:
            self.out.append(('text', st, s))

    def cstr(self, a, n=None):
        def leaf(x):
            while x.op == 'ite':
                x = x.args[1] if self.V.ev(x.args[0], self.env) else x.args[2]
            return x
        x = leaf(a)
        if x.op != 'ptr' or x.args[0].args[0] != 'glob' or x.args[0].args[1] not in self.names:
            raise valu.Unk('text')
        o = self.V.ev(x.args[1], self.env)
        b = self.names[x.args[0].args[1]][o:]
        b = b[:n] if n is not None else b.split(b'\0')[0]
        return b.decode('latin1')

    def run(self, events, env):
        V = self.V
        for c, nm, a in events:
            if not V.ev(c, env):
                continue
            if nm == 'loop':
                k, K, sub = a
                n = V.ev(K, env)
                if n > CAP:
                    raise valu.Unk('long loop')
                for i in range(n + 1):
                    e2 = dict(env)
                    e2[k] = i
                    self.run(sub, e2)
                    if len(self.out) > CAP:
                        raise valu.Unk('long output')
                continue
            self.env = env
            self.event(nm, a)

    def event(self, nm, a):
        V, env = self.V, self.env
        m = re.match(r'_ZSt(?:no)?boolalphaRSt8ios_base$', nm)
        if nm in ('_ZSt9boolalphaRSt8ios_base', '_ZSt11noboolalphaRSt8ios_base'):
            st = stream_of(a[0], V, env)
            self.alpha[st] = nm == '_ZSt9boolalphaRSt8ios_base'
            return
        if nm in TXT:
            self.text(stream_of(a[0], V, env), self.cstr(a[1], V.ev(a[2], env)))
            return
        if nm.startswith('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_'):
            st = stream_of(a[0], V, env)
            r = nm[len('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_'):]
            if r == 'PKc':
                self.text(st, self.cstr(a[1]))
                return
            if r == 'c':
                self.text(st, chr(V.ev(a[1], env) & 255))
                return
            raise valu.Unk(nm)
        if nm == '_ZNSo3putEc':
            self.text(stream_of(a[0], V, env), chr(V.ev(a[1], env) & 255))
            return
        if nm.startswith('_ZSt4endlI'):
            self.text(stream_of(a[0], V, env), '\n')
            return
        if nm.startswith('_ZSt5flushI') or nm == '_ZNSo5flushEv':
            return
        m = re.match(r'_ZNSo9_M_insertI(\w)EERSoT_$', nm) or re.match(r'_ZNSolsE(\w)$', nm)
        if m:
            st = stream_of(a[0], V, env)
            v = V.ev(a[1], env)
            t = m.group(1)
            if t == 'b':
                self.out.append(('bool', st, bool(v), self.alpha.get(st, False)))
            elif t in 'dfe':
                self.out.append(('num', st, float(v)))
            else:
                self.out.append(('int', st, v))
            return
        raise valu.Unk(nm)


def tokens(S, V):
    t = Tok(S, V)
    t.run(S.events, {})
    return t.out


def writes(S, V):
    """number of lines begun on each stream (any text counts), whatever is written"""
    res = set()

    def run(events, env):
        for c, nm, a in events:
            if nm == 'loop':
                if not V.ev(c, env):
                    continue
                k, K, sub = a
                n = V.ev(K, env)
                if n > CAP:
                    raise valu.Unk('long loop')
                for i in range(n + 1):
                    e2 = dict(env)
                    e2[k] = i
                    run(sub, e2)
            elif 'ostream' in nm or nm.startswith('_ZNSo'):
                if V.ev(c, env) and not nm.startswith('_ZSt5flush'):
                    res.add(stream_of(a[0], V, env))
            elif nm in ('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fwrite', 'fputc'):
                if V.ev(c, env):
                    res.add('out' if nm in ('printf', 'puts', 'putchar') else 'err')
    run(S.events, {})
    return res


def differ(x, y):
    if len(x) != len(y):
        return True
    for p, q in zip(x, y):
        if p[:2] != q[:2] or len(p) != len(q):
            return True
        if p[0] == 'num':
            if not valu.same(p[2], q[2]):
                return True
        elif p != q:
            return True
    return False


def canon(events, m, n=0):
    """events with canonical loop variables, for structural comparison"""
    r = []
    for c, nm, a in events:
        c2 = T.subst(c, m) if m else c
        if nm == 'loop':
            k, K, sub = a
            kk = T.mk('bv', k.ty, 'ev%d' % n)
            m2 = dict(m)
            m2[k] = kk
            r.append((c2, nm, T.subst(K, m) if m else K, canon(sub, m2, n + 1)))
        else:
            r.append((c2, nm) + tuple(T.subst(x, m) if m else x for x in a))
    return r


def terms(events):
    """every condition, loop count and number written"""
    r = []
    for c, nm, a in events:
        r.append(c)
        if nm == 'loop':
            r += [a[1]] + terms(a[2])
        else:
            r += [x for x in a if x.ty[0] != 'p']
    return r


def has_unk(events):
    for c, nm, a in events:
        if nm == 'loop':
            if a[1].unk or has_unk(a[2]):
                return True
        elif c.unk or any(x.unk for x in a):
            return True
    return False
