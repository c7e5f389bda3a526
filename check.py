#!/usr/bin/env python3
"""Decide one property by value-graph analysis of /repo's current source.

usage: check.py <PROPERTY> [--thorough] [--only PAIR] [-v]
exit 0 held / 1 violation (VIOLATION line) / 2 the check itself failed
"""
import subprocess, sys, os, time, json, glob, shutil, signal, tempfile, threading, pickle, select, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('VF_REPO', '/repo')
import irprep, resource
MEM = 6 << 30


EXPL_WIT = ('Compile-fail witnesses: every rule is a pair of programs type checked against the current headers; the legal twin has to be '
            'accepted and the offending program rejected (`rejected` cites the header construct that rejects it). `unknown` = the twin is '
            'rejected as well, so that the pair decides nothing.')


def child(bc, name, seed, nval, wfd):
    import pair
    from llvmir import Module
    box = {}
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))

    def main():
        try:
            m = MODS.get(bc) or Module(bc)
            R = pair.check_pair(m, name, NV=nval, seed=seed)
            box['r'] = dict(name=name, items=R.items, lines=getattr(R, 'lines', []), stats=getattr(R, 'stats', {}),
                            nf=getattr(R, 'nf', {}))
        except BaseException as e:
            box['r'] = dict(name=name, items=[('analysis', 'unknown', '%s: %s' % (type(e).__name__, e), None)],
                            lines=[], stats={}, tb=traceback.format_exc()[-1500:], nf={})
    t = threading.Thread(target=main)
    t.start()
    t.join()
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(box['r'], f)


def run_pool(jobs, nproc, limit, seed, nval, deadline):
    """jobs: [(bc, name)] -> results, one forked analyser per pair"""
    res = []
    queue = list(jobs)
    live = {}
    while queue or live:
        while queue and len(live) < nproc:
            bc, name = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    child(bc, name, seed, nval, w)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (pid, name, time.time(), [])
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for r in list(live):
            pid, name, t0, buf = live[r]
            done = None
            if r in rd:
                d = os.read(r, 1 << 16)
                if d:
                    buf.append(d)
                    continue
                try:
                    done = pickle.loads(b''.join(buf))
                except Exception:
                    done = dict(name=name, items=[('analysis', 'unknown', 'analyser died', None)], lines=[], stats={}, nf={})
            elif now - t0 > limit or now > deadline:
                os.kill(pid, signal.SIGKILL)
                done = dict(name=name, items=[('analysis', 'unknown', 'time budget exhausted', None)], lines=[], stats={}, nf={})
            if done is not None:
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                done['wall'] = now - t0
                res.append(done)
    return res


MODS = {}          # bitcode file -> module
REJECTED = []      # (rule, error): the operation of the rule is no longer accepted by the library
DROPPED = []       # rules that the current tree rejects at compile time: not analysable, reported in the evidence


def chunks(text):
    """top-level items of a driver: (first line, last line), from 0; preprocessor lines are not items"""
    lines = text.split('\n')
    out, i = [], 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('#'):
            while lines[i].endswith('\\'):
                i += 1
            i += 1
            continue
        if not ln.strip() or ln.startswith('//'):
            i += 1
            continue
        j, depth = i, 0
        while True:
            t = re.sub(r'//.*|"(\\.|[^"])*"', '', lines[j])
            depth += sum(t.count(c) for c in '({') - sum(t.count(c) for c in ')}')
            if depth <= 0 or j + 1 >= len(lines):
                break
            j += 1
        out.append((i, j))
        i = j + 1
    return out


def n_rules(src):
    return len(chunks(open(src).read()))


def drop_rules(src, err, dst):
    """blank the top-level items in which clang reports errors"""
    text = open(src).read()
    bad = {int(x) - 1 for x in re.findall(re.escape(src) + r':(\d+):\d+: (?:error|note)', err)}
    own = {}           # line of the driver -> error inside the library that it leads to
    for blk in re.split(r'\n(?=\S+:\d+:\d+: (?:fatal )?error: )', err):
        m = re.match(r'(?:.*\n)*?(\S+):(\d+):\d+: (?:fatal )?error: (.*)', blk)
        if m and os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + os.sep):
            for x in re.findall(re.escape(src) + r':(\d+):\d+: note', blk):
                own.setdefault(int(x) - 1, '%s:%s: %s' % (os.path.relpath(m.group(1), REPO), m.group(2), m.group(3)))
        else:
            for x in re.findall(re.escape(src) + r':(\d+):\d+: (?:error|note)', blk):
                own[int(x) - 1] = ''
    lines = text.split('\n')
    cut = []
    for a, b in chunks(text):
        if any(a <= x <= b for x in bad) and re.match(r'[A-Z]\w*\(', lines[a]):
            why = {own.get(x, '') for x in bad if a <= x <= b}
            cut.append((lines[a][:60], '' if '' in why else sorted(why)[0], lines[a:b + 1]))
            for k in range(a, b + 1):
                lines[k] = ''
    open(dst, 'w').write('\n'.join(lines))
    return cut


def single_rules(src, dst, inc, nproc):
    """the errors name no line of the driver (bodies instantiated at the end of the unit): try the rules one by one"""
    text = open(src).read()
    lines = text.split('\n')
    items = [(a, b) for a, b in chunks(text) if re.match(r'[A-Z]\w*\(', lines[a])]
    inside = {k for a, b in items for k in range(a, b + 1)}
    base = ['' if k in inside else ln for k, ln in enumerate(lines)]
    todo, bad, lock = list(enumerate(items)), {}, threading.Lock()

    def go():
        while True:
            with lock:
                if not todo:
                    return
                n, (a, b) = todo.pop()
            f = dst[:-4] + '_one_%d.cpp' % n
            cur = list(base)
            cur[a:b + 1] = lines[a:b + 1]
            open(f, 'w').write('\n'.join(cur))
            r = subprocess.run([irprep.CLANG, '-std=c++20', '-w', '-fsyntax-only'] + ['-I' + d for d in inc] + [f], capture_output=True, text=True)
            os.unlink(f)
            if r.returncode:
                e = re.findall(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)', r.stderr, re.M)
                lib = e and all(os.path.realpath(x).startswith(os.path.realpath(REPO) + os.sep) for x, _, _ in e)
                bad[(a, b)] = '%s:%s: %s' % (os.path.relpath(e[0][0], REPO), e[0][1], e[0][2]) if lib else ''
    ts = [threading.Thread(target=go) for _ in range(nproc)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if not bad or len(bad) > 0.4 * len(items):
        return []
    cut = []
    for (a, b), why in sorted(bad.items()):
        cut.append((lines[a][:60], why, lines[a:b + 1]))
        for k in range(a, b + 1):
            lines[k] = ''
    open(dst, 'w').write('\n'.join(lines))
    return cut


def rejected(src, rest, lost, inc):
    """rules whose operation the library itself no longer accepts: every error lies in its headers, for both compilers"""
    groups = {}
    for head, why, text in lost:
        m = re.match(r'(?:IMPL|SPEC)\w*\((\w+)', head)
        groups.setdefault(m.group(1) if m else '_'.join(re.findall(r'\w+', head)[:2]), []).append((why, text))
    out = []
    for name, g in groups.items():
        if any(not why for why, _ in g):
            continue
        f = rest[:-4] + '_rej_%d.cpp' % len(out)
        pre = [ln for ln in open(rest).read().split('\n')]
        open(f, 'w').write('\n'.join(pre + [ln for _, t in g for ln in t]) + '\n')
        r = subprocess.run(['g++', '-std=c++20', '-w', '-fsyntax-only'] + ['-I' + d for d in inc] + [f], capture_output=True, text=True)
        e = re.findall(r'^(\S+?):\d+:\d+: (?:fatal )?error', r.stderr, re.M)
        if r.returncode and e and all(os.path.realpath(x).startswith(os.path.realpath(REPO) + os.sep) for x in e):
            out.append((name, g[0][0]))
    return out


def compile_all(srcs, work, extra, nproc):
    """drivers -> bitcode, in parallel; returns {src: (bc or None, error)}"""
    out = {}
    lock = threading.Lock()
    todo = list(srcs)

    def go():
        while True:
            with lock:
                if not todo:
                    return
                s = todo.pop(0)
            inc = [os.path.join(REPO, 'include'), os.path.join(HERE, 'drivers'), os.path.dirname(s)]
            tag = os.path.basename(os.path.dirname(s)) + '_' + os.path.splitext(os.path.basename(s))[0]
            cur, lost, r = s, [], None
            for attempt in range(8):
                try:
                    r = (irprep.prepare(cur, work, inc, extra, tag=tag), None)
                    break
                except irprep.CompileError as e:
                    r = (None, str(e))
                    dst = os.path.join(work, tag + '.cpp')
                    cut = drop_rules(cur, str(e), dst) or (not attempt and single_rules(cur, dst, inc, nproc))
                    if not cut or len(lost) + len(cut) > 0.4 * n_rules(s):
                        break
                    lost += cut
                    cur = os.path.join(work, tag + '.cpp')
            with lock:
                out[s] = r
                if r[0]:
                    DROPPED.extend('%s: %s' % (os.path.relpath(s, HERE), x) for x, _, _ in lost)
                    if len(lost) <= 0.1 * n_rules(s) + 2:
                        REJECTED.extend(rejected(s, cur, lost, inc))
    ts = [threading.Thread(target=go) for _ in range(nproc)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {(k['pair'], k['what']): k for k in d.get('known', []) if k['property'] == prop}


def pairs_in(bc):
    from llvmir import Module
    m = MODS[bc] = Module(bc)      # read once, inherited by the analysers
    return [n[5:] for n in m.funcs if n.startswith('impl_') and 'spec_' + n[5:] in m.funcs]


def main():
    if '--selfcheck' in sys.argv:          # the tools and libraries every check needs are there
        from llvmir import Module          # noqa: F401  (loads libLLVM)
        for t in (irprep.CLANG, irprep.OPT):
            assert os.access(t, os.X_OK), t
        print('ok')
        return
    if os.environ.get('PYTHONHASHSEED') != '0':      # same order of work in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    verbose = '-v' in sys.argv
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
        args = [a for a in args if a not in (','.join(only),)]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    nproc = min(8, os.cpu_count() or 4)
    deadline = t0 + (3000 if thorough else 780)
    limit = 600 if thorough else 150
    nval = 1200 if thorough else 240
    work = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    try:
        rc = run(prop, work, nproc, limit, seed, nval, deadline, thorough, only, verbose, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, work, nproc, limit, seed, nval, deadline, thorough, only, verbose, t0):
    srcs = sorted(glob.glob(os.path.join(HERE, 'drivers', prop, '*.cpp')))
    if not srcs and not glob.glob(os.path.join(HERE, 'drivers', prop, '*.wit')):
        print('no drivers for', prop)
        return 2
    extra = ['-DFULL'] if thorough else []
    comp = compile_all(srcs, work, extra, nproc)
    jobs, errs, viol = [], [], []
    known = known_findings(prop)
    for s, (bc, err) in comp.items():
        if err:
            errs.append((s, err))
            continue
        for n in pairs_in(bc):
            if only is None or n in only:
                jobs.append((bc, n))
    import pair          # loaded once, inherited by the forks
    import extra as X
    threading.stack_size(1 << 29)
    res = run_pool(jobs, nproc, limit, seed, nval, deadline)
    for n, why in REJECTED:
        res.append(dict(name=n, items=[('instantiation', 'VIOLATED', 'the operation no longer compiles: ' + why, None)], lines=[], stats={}, nf={}))
    res += X.run(prop, REPO, HERE, work, thorough, only)
    if only is None or set(only) & {'state', 'effects'}:
        import state
        res += state.run(prop, REPO, HERE, work, thorough, only, drop_rules)
    order = {n: i for i, (b, n) in enumerate(jobs)}
    res.sort(key=lambda r: order.get(r['name'], 1 << 30))
    cnt = dict(proved=0, agrees=0, unknown=0, VIOLATED=0, vacuous=0)
    kinds, files = {}, {}
    samples, unk, repdir = [], [], os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(repdir, exist_ok=True)
    tot = dict(insts=0, loops=0, accesses=0)
    kf = []
    rc = 0
    for r in res:
        for what, st, det, loc in r['items']:
            cnt[st] += 1
            k = what.split(':')[0] + (':' + what.split(':')[1] if what.startswith('safety') else '')
            kinds.setdefault(k, {}).setdefault(st, 0)
            kinds[k][st] += 1
            if verbose or st in ('VIOLATED', 'vacuous') and (r['name'], what) not in known:
                print('%-28s %-28s %-9s %s %s' % (r['name'], what, st, det[:300], pair.fmtloc(loc) if loc else ''))
            if st == 'unknown':
                unk.append('%s/%s: %s' % (r['name'], what, det[:160]))
            if st == 'vacuous':
                rc = max(rc, 2)
            if st == 'VIOLATED':
                key = (r['name'], what)
                path = os.path.join(repdir, '%s-%s.txt' % (prop, r['name']))
                with open(path, 'a' if any(v[0] == r['name'] for v in viol) else 'w') as f:
                    f.write('property  %s\nrule      %s (driver pair impl_%s / spec_%s)\nobligation %s\nlocation  %s\ndifference %s\n' % (
                        prop, r['name'], r['name'], r['name'], what, pair.fmtloc(loc) if loc else '(value-flow slice below)', det))
                    for t, v in r.get('nf', {}).items():
                        f.write('%s\n    %s\n' % (t, v))
                    f.write('implementation constructs in the slice:\n')
                    for fn, ln in r['lines']:
                        f.write('    include/%s:%d\n' % (fn, ln))
                    f.write('replay: python3 /verif/check.py %s --only %s -v\n\n' % (prop, r['name']))
                if key in known:
                    kf.append((known[key], path))
                else:
                    viol.append((r['name'], what, path))
        for x in tot:
            tot[x] += r.get('stats', {}).get(x, 0) if isinstance(r.get('stats', {}).get(x, 0), int) else 0
        for f, l in r['lines']:
            files.setdefault(f, set()).add(l)
        if r['items'] and len(samples) < 12 and len(r['items']) > 1:
            samples.append({'rule': r['name'], 'obligations': [[w, s, d[:100]] for w, s, d, _ in r['items']][:8],
                            'constructs': ['%s:%d' % x for x in r['lines'][:8]]})
    for x in DROPPED:
        print('rule not analysable on the current tree: ' + x)
    for s, e in errs:
        sys.stderr.write('driver %s does not build against the current tree:\n%s\n' % (s, e[:3000]))
        rc = 2
    if only is None:
        ob = sum(cnt.values()) - cnt['vacuous']
        ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'other',
              'coverage': {
                  'explanation': EXPL_WIT if not srcs else 'Static value-graph analysis of the current source: each rule instantiates public templates with '
                                 'unconstrained operands; obligations are decided on the normal forms (identity, order closure) for all '
                                 'sizes and contents; `agrees` = normal forms differ syntactically but random interpretation of them found '
                                 'no difference; `unknown` = outside the analysis, never reported.',
                  'rules_analysed': len(res), 'obligations_total': ob, 'obligations_proved': cnt['proved'],
                  'obligations_agree_only': cnt['agrees'], 'obligations_unknown': cnt['unknown'],
                  'obligations_violated': cnt['VIOLATED'], 'by_kind': kinds,
                  'ir_instructions': tot['insts'], 'loops_summarised': tot['loops'], 'memory_accesses': tot['accesses'],
                  'source_lines_in_slices': {f: len(v) for f, v in sorted(files.items())},
                  'unknown': unk[:60], 'samples': samples,
                  'known_findings': [k['id'] for k, _ in kf], 'driver_errors': [s for s, _ in errs], 'rules_not_compilable': DROPPED},
              'assumptions': ['clang 18 lowers the templates to the same semantics as the g++ used by the build',
                              'operands satisfy the storage invariant (drivers/vf.hpp), itself an obligation of C05',
                              'heap allocation succeeds'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    if verbose:
        for r in sorted(res, key=lambda r: -r.get('wall', 0))[:25]:
            print('TIME %s %.1f' % (r['name'], r.get('wall', 0)))
    print('%s: %d rules, %d proved, %d agree, %d unknown, %d violated (%.1fs)' % (
        prop, len(res), cnt['proved'], cnt['agrees'], cnt['unknown'], cnt['VIOLATED'], time.time() - t0))
    for k, path in kf:
        print('KNOWN-FINDING: property=%s %s [%s/%s]' % (prop, k['summary'], k['pair'], k['what']))
    if viol:
        for n, w, path in viol:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if not res:
        return 2
    return rc


if __name__ == '__main__':
    main()
