"""Summaries of driver functions and the impl/spec decision procedure."""
import sys, time
import term as T
from term import TRUE, FALSE, AND, OR, NOT, ITE, ptr, base, mk, ZERO, constrain
import vg, valu, zone, events as evs
from llvmir import Module


class Summary:
    pass


def summarise(mod, name):
    F = mod.funcs[name]
    args = []
    for n, ty in enumerate(F.argtys):
        if ty[0] == 'p':
            args.append(ptr(base('arg', n), ZERO))
        elif ty == T.B1:
            args.append(T.atom('call', 'arg', n) if False else T.raw_ite(mk('sel', T.B1, mk('A.init', vg.ARR, base('sarg')), T.const(T.I64, n)), TRUE, FALSE))
        else:
            args.append(mk('sel', ty, mk('A.init', vg.ARR, base('sarg')), T.const(T.I64, n)))
    E = vg.FnEval(mod, F, args)
    ret, cond, mem = E.run()
    S = Summary()
    fr = E.frames[0]
    S.E, S.F, S.ret, S.cond, S.mem = E, F, ret, cond, mem
    S.throws, S.asm, S.warned, S.events = fr.throws, fr.asm, fr.warned, fr.events
    S.outs, S.oblig, S.flags = fr.outs, fr.oblig, E.flags
    S.changed, S.achanged, S.watched = fr.changed, fr.achanged, bool(E.watch)
    return S


def outputs(S):
    d = {}
    if S.ret is not None and S.ret.ty[0] != 'p':
        d['ret'] = (S.cond, S.ret)
    for t, (c, v) in S.outs.items():
        d['out%d' % t] = (c, v)
    return d


class Result:
    def __init__(s, name):
        s.name = name
        s.items = []     # (what, status, detail, loc)

    def add(s, what, status, detail='', loc=None):
        s.items.append((what, status, detail, loc))


NVAL = 240


class Pool:
    """admissible valuations of the preconditions, shared by all decisions"""
    def __init__(self, asms, asm, NV, seed):
        self.asms, self.asm, self.NV, self.seed = asms, asm, NV, seed
        self.vals = None
        self.more = None
        self.guide = None
        self.units, self.rest = zone.units_of(asms)

    def extra(self):
        """further valuations aimed at the constants that occur in the compared terms"""
        if self.more is None:
            self.more = []
            tabs = self.guide() if self.guide else None
            t0 = time.time()
            for s in range(320 if tabs else 0):
                V = valu.Val(valu.mix(self.seed, s, 99), tabs)
                try:
                    if V.admit(self.asms) and V.ev(self.asm, {}):
                        self.more.append(V)
                        if len(self.more) >= 200:
                            break
                except (valu.Reject, valu.Unk):
                    pass
                if time.time() - t0 > 8:
                    break
        return self.more

    def both(self):
        yield from self.get()
        yield from self.extra()

    def get(self):
        if self.vals is None:
            self.vals = []
            for s in range(self.NV):
                V = valu.Val(valu.mix(self.seed, s))
                try:
                    if V.admit(self.asms) and V.ev(self.asm, {}):
                        self.vals.append(V)
                        if len(self.vals) * 5 > self.NV * 3:
                            break
                except (valu.Reject, valu.Unk):
                    pass
        return self.vals


def decide(R, what, goal_bad, care, pool, detail=None, loc=None, minok=8):
    """goal_bad: BDD that must be unsatisfiable within care (= preconditions and nth)"""
    nth = care
    care = AND(pool.asm, nth)
    g = AND(care, goal_bad)
    if g is FALSE:
        R.add(what, 'proved', 'diagram', loc)
        return
    if zone.refuted(AND(pool.rest, AND(nth, goal_bad)), pool.units):
        R.add(what, 'proved', 'order closure', loc)
        return
    tested = unkn = 0
    for V in pool.both():
        try:
            if not V.ev(care, {}):
                continue
            if V.ev(goal_bad, {}):
                R.add(what, 'VIOLATED', detail(V) if detail else '', loc)
                return
            tested += 1
        except valu.Reject:
            continue
        except valu.Unk as e:
            unkn += 1
    settle(R, what, tested, unkn, loc)


def settle(R, what, tested, unkn, loc):
    if unkn and unkn * 4 > tested:
        R.add(what, 'unknown', 'value graph incomplete (%d unresolved, %d compared)' % (unkn, tested), loc)
    elif tested < 8:
        R.add(what, 'unknown', 'only %d admissible valuations' % tested, loc)
    else:
        R.add(what, 'agrees', '%d valuations' % tested, loc)


def decide_eq(R, what, a, b, care, pool, fmt, loc=None):
    nth = care
    care = AND(pool.asm, nth)
    ca, cb = constrain(a, care), constrain(b, care)
    if ca is cb and not ca.unk:
        R.add(what, 'proved', 'identical normal forms', loc)
        return
    d = AND(nth, zone.differ(a, b))
    if zone.refuted(AND(pool.rest, d), pool.units):
        R.add(what, 'proved', 'normal forms equal up to order closure', loc)
        return
    tested = unkn = 0
    for V in pool.both():
        try:
            if not V.ev(care, {}):
                continue
        except (valu.Reject, valu.Unk):
            continue
        try:
            x, y = V.ev(a, {}), V.ev(b, {})
        except valu.Reject:
            continue
        except valu.Unk:
            unkn += 1
            continue
        tested += 1
        if not valu.same(x, y):
            R.add(what, 'VIOLATED', fmt(V, x, y), loc)
            return
    settle(R, what, tested, unkn, loc)


def decide_events(R, I, S, care, pool, anytext=False):
    care = AND(pool.asm, care)
    x, y = evs.canon(I.events, {}), evs.canon(S.events, {})
    if x == y and not evs.has_unk(I.events):
        R.add('output', 'proved', 'identical event sequences')
        return
    tested = unkn = 0
    for V in pool.both():
        try:
            if not V.ev(care, {}):
                continue
            if anytext:
                a, b = sorted(evs.writes(I, V)), sorted(evs.writes(S, V))
            else:
                b = evs.tokens(S, V)
                a = evs.tokens(I, V)
        except valu.Reject:
            continue
        except valu.Unk:
            unkn += 1
            continue
        tested += 1
        if a != b if anytext else evs.differ(a, b):
            R.add('output', 'VIOLATED', 'writes %.300s, rule says %.300s: %s' % (a, b, inputs_of(V)))
            return
    settle(R, 'output', tested, unkn, None)


def tsite(V, S):
    for c, l in S.E.frames[0].tsites:
        try:
            if V.ev(c, {}):
                return '[at %s] ' % fmtloc(l)
        except (valu.Reject, valu.Unk):
            pass
    return ''


def inputs_of(V):
    it = sorted(V.content_memo.items(), key=lambda t: repr(t[0]))[:60]
    return '; '.join('%x[%s]:%s=%s' % (k[0] if isinstance(k[0], int) else 0, k[1], k[2][0] + str(k[2][1]), v) for k, v in it)


def fmtloc(loc, repo='/repo/'):
    """outermost-to-innermost chain of /repo lines"""
    if not loc:
        return '?'
    ch = [(f, l) for f, l in loc if l]
    return ' <- '.join('%s:%d' % (f.split('/include/')[-1], l) for f, l in ch[:6])


def slice_locs(S, limit=400):
    """source lines of the implementation that the driver's code came from"""
    seen = {}
    for b in S.F.blocks:
        for i in b.phis + b.insts + [b.term]:
            if i.loc:
                for f, l in i.loc:
                    if '/include/etr' in f and l:
                        seen[(f.split('/include/')[-1], l)] = 1
    return sorted(seen)


def check_pair(mod, name, NV=NVAL, seed=1, events=True):
    R = Result(name)
    t0 = time.time()
    try:
        I = summarise(mod, 'impl_' + name)
        S = summarise(mod, 'spec_' + name)
    except (vg.Undecided, T.Blowup, RecursionError) as e:
        R.add('summary', 'unknown', '%s: %s' % (type(e).__name__, e))
        return R
    R.stats = dict(I.E.stats)
    R.lines = slice_locs(I)
    R.unsolved = I.E.stats['unsolved']
    flags = I.flags | S.flags
    asm = AND(I.asm, S.asm)
    asms = list(dict.fromkeys(x for x in I.E.frames[0].asms + S.E.frames[0].asms if x is not TRUE))
    pool = Pool(asms, asm, NV, seed)
    pool.guide = lambda: valu.guided([I.throws, I.warned, I.changed, I.achanged] + [v for _, v in outputs(I).values()] + [b for _, b, _ in I.oblig] + (evs.terms(I.events) if flags & 32 else []),
                                     [S.throws, S.warned] + [v for _, v in outputs(S).values()] + (evs.terms(S.events) if flags & 32 else []))
    loc = None
    if not flags & 1:
        a, b = I.throws, S.throws
        decide_eq(R, 'error-condition', ITE(a, TRUE, FALSE), b, TRUE, pool,
                  lambda V, x, y: 'implementation %s an error, the rule %s: %s' % ('raises' if x else 'does not raise', 'requires one' if y else 'forbids it', tsite(V, I if x else S) + inputs_of(V)), loc)
    if I.watched:
        na = I.E.stats.get('allocations', 0)
        if na and not flags & 128:
            decide(R, 'failed-allocation-leaves-state', I.achanged, TRUE, pool,
                   lambda V: 'memory is requested after an object was changed or its block released: ' + inputs_of(V), loc)
        if AND(asm, I.throws) is FALSE and not na:
            R.add('error-leaves-state', 'vacuous', 'the operation raises no error')
            return R
        decide(R, 'error-leaves-state', I.changed, I.throws, pool,
               lambda V: 'an error is raised after an object was changed: ' + tsite(V, I) + inputs_of(V), loc)
    care = AND(NOT(I.throws), NOT(S.throws))
    if AND(asm, care) is FALSE and not (flags & 16):
        R.add('care', 'vacuous', 'no input satisfies the preconditions')
        return R
    oi, os = outputs(I), outputs(S)
    for t in os:
        ci, vi = oi.get(t, (FALSE, None))
        cs, vs = os[t]
        if vi is None:
            decide(R, 'value:' + t, cs, care, pool, lambda V: 'output missing: ' + inputs_of(V), loc)
            continue
        decide_eq(R, 'value:' + t, vi, vs, AND(care, AND(ci, cs)), pool,
                  lambda V, x, y: 'computed %s, rule says %s: %s' % (x, y, inputs_of(V)), loc)
    if not flags & 2:
        decide_eq(R, 'warning-condition', I.warned, S.warned, care, pool,
                  lambda V, x, y: 'warning %s, rule says %s: %s' % (x, y, inputs_of(V)), loc)
    if flags & 32:
        decide_events(R, I, S, care, pool, flags & 64)
    # memory / ownership obligations of the implementation
    agg = {}
    for kind, bad, l in I.oblig:
        key = (kind, tuple(l[:3]) if l else None)
        agg[key] = (OR(agg[key][0], bad) if key in agg else bad, l)
    for (kind, _), (bad, l) in agg.items():
        if flags & 4:
            break
        decide(R, 'safety:' + kind, bad, TRUE, pool, lambda V: inputs_of(V), l)
    R.I, R.S = I, S
    R.wall = time.time() - t0
    return R
