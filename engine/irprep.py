"""Front half of the analyser: C++ driver TU -> simplified LLVM IR.

The driver translation units in /verif/drivers only *instantiate* /repo's
templates; nothing is ever executed.  Here clang lowers them to IR, diagnostic
plumbing (message strings) is dropped, `etr::ass`/`etr::warn` are replaced by
abstract primitives (their own bodies are analysed separately, see
rules/assertions), everything else is inlined, and scalar promotion runs.
"""
import os, re, subprocess, sys

LLVM = '/usr/lib/llvm-18/bin/'
CLANG = LLVM + 'clang++'
OPT = LLVM + 'opt'

BASE_FLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-w', '-ferror-limit=0',
              '-gline-tables-only', '-fno-math-errno', '-ffp-contract=off',
              '-fno-strict-aliasing']

LINKAGE = {'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'internal', 'private',
           'available_externally', 'dso_local', 'hidden', 'protected'}

RE_NAME = re.compile(r'@("[^"]*"|[\w.$-]+)\(')


def split_sig(line):
    """define <pre> @name(<params>) <post> {  -> (pre, name, params, post)"""
    m = RE_NAME.search(line)
    i = m.end()
    depth, q = 1, False
    j = i
    while depth:
        c = line[j]
        if c == '"':
            q = not q
        elif not q:
            if c == '(':
                depth += 1
            elif c == ')':
                depth -= 1
        j += 1
    return line[:m.start()], m.group(1), line[i:j - 1], line[j:]


def is_string_fn(n):
    if not re.match(r'_ZN?K?Z*N?K?S[ta]', n) and not n.startswith('_ZZNSt'):
        return False
    if 'ostream' in n or '_ZNSo' in n or 'istream' in n:
        return False
    return ('basic_string' in n or n.startswith('_ZNSaIc') or
            n.startswith('_ZNSt15__new_allocatorIc') or
            n.startswith('_ZNSt16allocator_traitsISaIcE') or
            '9to_string' in n)


DROP_EXTRA = ()


def transform(text, keep_body=False, opaque=()):
    """keep_body: analyse the bodies of etr::ass and etr::warn instead of their model (C17)."""
    out = []
    text = re.sub(r' writable(?= )', '', text)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    seen_decl = set()
    opaque_re = [re.compile(o) for o in opaque]
    while i < n:
        ln = lines[i]
        if ln.startswith('define '):
            pre, name, params, post = split_sig(ln)
            j = i
            while lines[j] != '}':
                j += 1
            nm = name.strip('"')
            rest = pre[len('define '):]
            toks = [t for t in rest.split(' ') if t and t not in LINKAGE]
            if is_string_fn(nm):
                out.append('declare %s @%s(%s) nounwind willreturn memory(none)' % (
                    ' '.join(toks), name, params))
                i = j + 1
                continue
            if nm.startswith('_ZStlsISt11char_traits') or any(r.search(nm) for r in opaque_re):
                out.append('declare %s @%s(%s) nounwind' % (' '.join(toks), name, params))
                i = j + 1
                continue
            m = re.search(r'!dbg !\d+', post)
            dbg = ''
            if nm.startswith('_ZN3etr3assEb') and not keep_body:
                out.append('define internal void @%s(i1 %%c, ptr %%m) alwaysinline nounwind {' % name)
                out.append('  br i1 %c, label %ok, label %bad')
                out.append('bad:\n  call void @vf_throw() noreturn nounwind\n  unreachable')
                out.append('ok:\n  ret void\n}')
                i = j + 1
                continue
            if nm.startswith('_ZN3etr4warnEb') and not keep_body:
                out.append('define internal void @%s(i1 %%c, ptr %%m) alwaysinline nounwind {' % name)
                out.append('  call void @vf_warn(i1 %c) nounwind\n  ret void\n}')
                i = j + 1
                continue
            is_driver = not nm.startswith('_Z') or nm.startswith('_ZN2vf')
            attr = ' nounwind' if not nm.startswith('_Z') else ' nounwind alwaysinline'
            post2 = re.sub(r' (?=#\d+|comdat|align|personality|!dbg|\{)', attr + ' ', post, count=1)
            out.append(pre + '@' + name + '(' + params + ')' + post2)
            out.extend(lines[i + 1:j + 1])
            i = j + 1
            continue
        if ln.startswith('declare '):
            pre, name, params, post = split_sig(ln)
            nm = name.strip('"')
            if is_string_fn(nm):
                toks = [t for t in pre[8:].split(' ') if t and t not in LINKAGE]
                out.append('declare %s @%s(%s) nounwind willreturn memory(none)' % (
                    ' '.join(toks), name, params))
            elif nm.startswith('llvm.'):
                out.append(ln)
            elif nm in ('vf_throw', 'vf_warn'):
                pass
            else:
                post2 = re.sub(r'^((?: (?:local_)?unnamed_addr)?)', r'\1 nounwind', post, count=1)
                out.append(pre + '@' + name + '(' + params + ')' + post2)
            i += 1
            continue
        if ln.startswith('attributes #'):
            ln = re.sub(r'\b(noinline|optnone|minsize|optsize)\b', '', ln)
            ln = re.sub(r'"[^"]*"="[^"]*"', '', ln)
            if re.search(r'\{\s*\}', ln):
                ln = re.sub(r'\{\s*\}', '{ "vf" }', ln)
        out.append(ln)
        i += 1
    out.append('declare void @vf_throw() noreturn nounwind')
    out.append('declare void @vf_warn(i1) nounwind')
    return '\n'.join(out)


PIPE = ('always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,adce,'
        'sroa,early-cse,simplifycfg,adce,loop-simplify,lcssa,dce),globaldce')


class CompileError(Exception):
    pass


def clang_ll(src, out, include, extra=()):
    cmd = [CLANG] + BASE_FLAGS + ['-S', '-emit-llvm'] + ['-I' + d for d in include] + list(extra) + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(' '.join(cmd) + '\n' + r.stderr[:400000])


def prepare(src, workdir, include, extra=(), opaque=(), tag=None):
    keep = '// keep-bodies' in open(src).read()
    tag = tag or os.path.splitext(os.path.basename(src))[0]
    ll = os.path.join(workdir, tag + '.ll')
    clang_ll(src, ll, include, extra)
    t = transform(open(ll).read(), keep_body=keep, opaque=opaque)
    ll2 = os.path.join(workdir, tag + '.t.ll')
    open(ll2, 'w').write(t)
    bc = os.path.join(workdir, tag + '.bc')
    r = subprocess.run([OPT, '-passes=' + PIPE, ll2, '-o', bc], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('opt: ' + r.stderr[:4000])
    return bc


if __name__ == '__main__':
    bc = prepare(sys.argv[1], '/tmp/w', ['/repo/include', '/verif/drivers', '/tmp/w'])
    subprocess.run([LLVM + 'llvm-dis', bc, '-o', '/tmp/w/out.ll'])
