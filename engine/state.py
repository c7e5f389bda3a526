"""Effect analysis over the unoptimised IR: which functions of the library reach state other than their operands.

drivers/<PROP>/state.cfg:
  tu GLOB      driver translation units to instantiate (relative to drivers/)
  fn REGEX     functions of the library that are judged (mangled name)

Judged are all functions whose source lies in the headers.  Two rules:
  state    no mutable variable with static storage is written by them (a function-local constant whose
           guarded initialisation uses nothing but constants is none)
  effects  no call, directly or through the standard library's inline code, of a function whose result
           depends on the environment (clock, random device, exception state, floating point mode, ...)
"""
import fnmatch, glob, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import irprep

DENY = re.compile(
    r'^(time|clock|clock_gettime|gettimeofday|timespec_get|rand|srand|random|srandom|[dlmn]rand48|getenv|secure_getenv|setenv|putenv|'
    r'setlocale|localeconv|signal|raise|exit|_exit|quick_exit|system|getpid|gettid|pthread_self|pthread_create|sysconf|get_nprocs|'
    r'sched_getcpu|malloc_usable_size|mallinfo2?|sbrk|getrusage|fesetround|fegetround|fesetenv|feenableexcept|feclearexcept|feraiseexcept|'
    r'fetestexcept|omp_\w+|'
    r'_ZSt19uncaught_exceptionsv|_ZSt18uncaught_exceptionv|_ZSt17current_exceptionv|_ZNSt6chrono.*3nowEv|_ZNSt13random_device.*|'
    r'_ZNSt6locale6globalE.*|_ZNSt6thread.*|_ZNSt15this_thread.*)$')
STREAMS = {'__dso_handle', '_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', 'stdout', 'stderr'}
SAFE_TYPES = re.compile(r'mutex|once_flag|ios_base::Init')
READS = re.compile(r'^_ZNK|RK|^(mem|str|bcmp)|^_ZNSt5mutex|^pthread_|^__cxa_guard|^llvm\.(lifetime|invariant|dbg)')
GETS = re.compile(r'\d(begin|end|size|empty|data|c_str|front|back|at|length|find|ixE\w|lock|unlock|try_lock)E|ixE|mutex')
RESET = re.compile(r'@_ZN\w*?(\d(clear|assign)E|aSE)')
NAME = re.compile(r'@("[^"]*"|[\w.$-]+)')


class Fn:
    __slots__ = ('name', 'file', 'line', 'body', 'refs')


class TU:
    def __init__(self, text):
        self.globals, self.fns, self.locs, self.members = {}, {}, {}, set()
        subs, files = {}, {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DISubprogram\(.*?file: !(\d+), line: (\d+)', text, re.M):
            subs[m.group(1)] = (m.group(2), int(m.group(3)))
        for m in re.finditer(r'^!(\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', text, re.M):
            files[m.group(1)] = os.path.normpath(os.path.join(m.group(3), m.group(2)))
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M):
            self.locs[m.group(1)] = int(m.group(2))
        for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = (.*)$', text, re.M):
            d = m.group(2)
            k = re.search(r'\b(global|constant|alias|ifunc)\b (.*)', d)
            if k and k.group(1) == 'global':
                self.globals[m.group(1).strip('"')] = ('thread_local' in d, 'external' in d.split(' global')[0], k.group(2))
        for m in re.finditer(r'^define (.*?)\{\n(.*?)^\}', text, re.M | re.S):
            _, name, _, post = irprep.split_sig('define ' + m.group(1) + '{')
            f = Fn()
            f.name = name.strip('"')
            dbg = re.search(r'!dbg !(\d+)', post)
            f.file, f.line = '', 0
            if dbg and dbg.group(1) in subs:
                a, f.line = subs[dbg.group(1)]
                f.file = files.get(a, '')
            f.body = m.group(2)
            if '%this' in m.group(1):
                self.members.add(f.name)
            f.refs = {x.strip('"') for x in NAME.findall(f.body)}
            self.fns[f.name] = f

    def where(self, f, ln):
        m = re.search(r'!dbg !(\d+)', ln)
        return self.locs.get(m.group(1), f.line) if m else f.line


def demangle(names):
    r = subprocess.run([irprep.LLVM + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n'))) if r.returncode == 0 else {n: n for n in names}


def uses(body, g, members=()):
    """(line, kind) of every access of @g in a body, kind in read/write/escape, through addresses derived from it"""
    lines = body.split('\n')
    at = re.compile(r'@"?%s"?(?![\w.$-])' % re.escape(g))
    regs, todo, out, dead = set(), [at], [], set()
    while todo:
        pat = todo.pop()
        for n, ln in enumerate(lines):
            if not pat.search(ln):
                continue
            s = ln.strip()
            m = re.match(r'(%[\w."-]+) = (?:tail |musttail |notail )?(\w+)', s)
            op = m.group(2) if m else s.split(' ')[0]
            if op in ('tail', 'musttail', 'notail'):
                op = 'call'
            if op in ('getelementptr', 'bitcast', 'phi', 'select', 'addrspacecast') or op == 'call' and '@llvm.threadlocal.address' in s:
                if m and m.group(1) not in regs:
                    regs.add(m.group(1))
                    todo.append(re.compile(re.escape(m.group(1)) + r'(?![\w.-])'))
            elif op == 'load':
                out.append((ln, 'read'))
            elif op == 'store':
                # store TY VAL, ptr ADDR
                val, _, addr = s[5:].rpartition(', ptr ') if ', align' not in s else s[5:s.index(', align')].rpartition(', ptr ')
                out.append((ln, 'write' if pat.search(addr) else 'escape'))
            elif op == 'atomicrmw':
                used = m and re.search(re.escape(m.group(1)) + r'(?![\w.-])', '\n'.join(lines[n + 1:]))
                out.append((ln, 'write' if used else 'read'))
            elif op == 'cmpxchg':
                out.append((ln, 'write'))
            elif op in ('call', 'invoke'):
                c = NAME.search(s)
                c = c.group(1).strip('"') if c else ''
                if c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    first = s[s.index('(') + 1:].split(', ')[0]
                    out.append((ln, 'write' if pat.search(first) else 'read'))
                else:
                    a = re.sub(r'%"[^"]*"', '%q', s)
                    a = a[a.index('(', a.index(c) + len(c) - 1 if c in a else 0) + 1:] if '(' in a else a
                    obj = (c in members or c.startswith('_ZNSt7__cxx11')) and not c.startswith('_ZNK') and pat.search(a.split(', ')[0])
                    out.append((ln, 'write' if obj and not GETS.search(c) or not READS.search(c) and not obj else 'read'))
            elif op in ('icmp', 'ret', 'ptrtoint'):
                out.append((ln, 'escape' if op == 'ret' else 'read'))
            else:
                out.append((ln, 'read'))
    return out


def blocks(body):
    out, cur, lab = {}, [], 'entry'
    for ln in body.split('\n'):
        m = re.match(r'^([\w."-]+):', ln)
        if m:
            out[lab] = cur
            lab, cur = m.group(1).strip('"'), []
        else:
            cur.append(ln)
    out[lab] = cur
    return out


def guarded(fn, g, members):
    """are all writes of the function-local g part of its guarded initialisation, from constants only?"""
    guard = '_ZGV' + g[2:] if g.startswith('_Z') else None
    if not guard or guard not in fn.refs:
        return False
    B = blocks(fn.body)
    start = None
    for lab, ls in B.items():
        for ln in ls:
            if '__cxa_guard_acquire' in ln and guard in ln:
                m = re.search(r'br i1 [^,]+, label %([\w.-]+), label', '\n'.join(ls))
                start = m.group(1) if m else None
    if start is None:
        return False
    region, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in region or b not in B:
            continue
        region.add(b)
        t = '\n'.join(B[b])
        if '__cxa_guard_release' in t or '__cxa_guard_abort' in t:
            continue
        todo += re.findall(r'label %([\w.-]+)', t)
    inside = '\n'.join('\n'.join(B[b]) for b in region)
    outside = '\n'.join('\n'.join(ls) for b, ls in B.items() if b not in region)
    w = re.compile(r'@"?%s"?(?![\w.$-])' % re.escape(g))
    for ln, k in uses(outside, g, members):
        if k != 'read':
            return False
    if not w.search(inside):
        return False
    defs = set(re.findall(r'^\s*(%[\w."-]+) =', inside, re.M))
    for r in set(re.findall(r'%[\w.-]+', re.sub(r'label %[\w.-]+|%"[^"]*"|, %[\w.-]+ \]', '', inside))) - defs:
        # a local of the function: only a temporary that nothing outside the initialisation stores into
        if re.match(r'%(class|struct|union)\.', r):
            continue
        a = re.search(r'^\s*%s = alloca' % re.escape(r), outside, re.M)
        if not a:
            return False
        pat = re.compile(re.escape(r) + r'(?![\w.-])')
        for ln in outside.split('\n'):
            if pat.search(ln) and 'alloca' not in ln and 'lifetime' not in ln and not re.search(r'^\s*(%[\w.-]+ = )?(load|call void @_ZN\w+D[12]Ev|invoke void @_ZN\w+D[12]Ev)', ln) and not re.search(r'insertvalue|landingpad|resume', ln):
                v = re.match(r'^\s*store \w+ (%[\w.-]+), ', ln)
                if v and re.search(r'^\s*%s = extractvalue' % re.escape(v.group(1)), outside, re.M):
                    continue
                return False
    return True


def run(prop, repo, here, work, thorough, only, drop=None):
    cfg = os.path.join(here, 'drivers', prop, 'state.cfg')
    if not os.path.exists(cfg):
        return []
    t0 = time.time()
    globs, fnre = [], []
    for ln in open(cfg):
        k, _, v = ln.strip().partition(' ')
        if k == 'tu':
            globs.append(v.strip())
        elif k == 'fn':
            fnre.append(v.strip())
    fnre = re.compile('|'.join(fnre) or '.')
    srcs = sorted({s for g in globs for s in glob.glob(os.path.join(here, 'drivers', g))})

    def comp(s):
        out = os.path.join(work, 'st_%s_%s.ll' % (os.path.basename(os.path.dirname(s)), os.path.basename(s)[:-4]))
        inc = [os.path.join(repo, 'include'), os.path.join(here, 'drivers'), os.path.dirname(s)]
        cur = s
        for attempt in range(6):
            try:
                irprep.clang_ll(cur, out, inc, ('-fno-discard-value-names',))
                return s, out
            except irprep.CompileError as e:
                nxt = out[:-3] + '.cpp'
                if not drop or not drop(cur, str(e), nxt):
                    break
                cur = nxt
        return s, None
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(comp, srcs))
    from concurrent.futures import ProcessPoolExecutor
    root = os.path.realpath(os.path.join(repo, 'include')) + os.sep
    jobs = [(s, o, root, fnre.pattern) for s, o in outs if o]
    res = []
    failed = [os.path.relpath(s, here) for s, o in outs if not o]
    perfile, bad, seen = {}, {}, set()
    nread = 0
    with ProcessPoolExecutor(8) as ex:
        for fns, findings, reads in ex.map(scan, jobs):
            nread += reads
            for f, n in fns:
                if n not in seen:
                    seen.add(n)
                    perfile[f] = perfile.get(f, 0) + 1
            for k, v in findings.items():
                bad.setdefault(k, v)
    dm = demangle(sorted({v[2] for v in bad.values()} | {k[1] for k in bad}))
    tops = {}
    for (kind, what), (f, line, fn, chain) in sorted(bad.items()):
        name = 'effects' if kind == 'call' else 'state'
        path = 'include/' + os.path.relpath(f, root)
        if kind == 'call':
            det = '%s:%d %s calls %s, whose result is not determined by the operands%s' % (path, line, dm.get(fn, fn)[:160], dm.get(what, what), chain)
        else:
            det = '%s:%d %s changes %s, which outlives the call' % (path, line, dm.get(fn, fn)[:160], dm.get(what, what))
        tops.setdefault(name, []).append((kind + ':' + what[:80], 'VIOLATED', det, None))
    for n in ('state', 'effects'):
        items = tops.get(n, [])
        for f, c in sorted(perfile.items()):
            if not any(d[2].startswith('include/' + f) for d in items):
                items.append(('functions:' + f, 'proved', '%d functions judged' % c, None))
        if not perfile or not seen:
            items.append(('functions', 'vacuous', 'no function of the library in the translation units', None))
        res.append(dict(name=n, items=items, lines=[], stats={}, nf={'translation units': ', '.join(os.path.relpath(s, here) for s, o in outs if o),
                        'not built': ', '.join(failed)}, wall=time.time() - t0))
    return res


def scan(job):
    s, out, root, pat = job
    fnre = re.compile(pat)
    tu = TU(open(out).read())
    os.remove(out)
    fns, bad = [], {}
    mine = {n: f for n, f in tu.fns.items() if f.file and os.path.realpath(f.file).startswith(root)}
    judged = {n: f for n, f in mine.items() if fnre.search(n)}
    inits = {n for n, f in mine.items() if n.startswith(('__cxx_global_var_init', '_GLOBAL__sub_I')) or n.startswith('_ZTW') or n.startswith('_ZTH')}
    reads = 0
    for n, f in judged.items():
        if n in inits:
            continue
        fns.append((os.path.relpath(os.path.realpath(f.file), root), n))
        for g in f.refs & set(tu.globals):
            if g in STREAMS or g.startswith('_ZGV') or g.startswith('_ZTV'):
                continue
            tls, ext, ty = tu.globals[g]
            if SAFE_TYPES.search(ty):
                continue
            if g == '_ZSt3cin' or g == 'stdin' or g == 'environ':
                bad.setdefault(('call', g), (f.file, f.line, n, ''))
                continue
            us = uses(f.body, g, tu.members)
            if tls and us and RESET.search(us[0][0]):
                continue           # scratch space of a thread, emptied before it is used
            reads += len(us)
            for ln, k in us:
                if k != 'read' and not guarded(f, g, tu.members):
                    bad.setdefault(('variable', g), (f.file, tu.where(f, ln), n, ''))
        # calls: through inline code of the standard library up to its external functions
        todo, done = [(c, ()) for c in f.refs], set()
        while todo:
            c, ch = todo.pop()
            if c in done:
                continue
            done.add(c)
            if DENY.match(c):
                line = f.line
                first = ch[0] if ch else c
                for ln in f.body.split('\n'):
                    if '@' + first in ln or '@"' + first in ln:
                        line = tu.where(f, ln)
                        break
                bad.setdefault(('call', c), (f.file, line, n, (' (through %s)' % ' -> '.join(ch[:4])) if ch else ''))
            elif c in tu.fns and c not in mine and tu.fns[c].file and len(ch) < 12 and not c.startswith(('impl_', 'spec_', 'vf_')):
                todo += [(x, ch + (c,)) for x in tu.fns[c].refs]
    return fns, bad, reads
