"""Type-level witnesses: programs that must, or must not, be accepted by the current headers.

drivers/<PROP>/*.wit, one witness per line (fields separated by ` | `):
  no  NAME | accepted twin | program that has to be rejected
  is  NAME | expression | element type
Only the type checker runs.  A `no` witness is judged only when its accepted twin, the same program
with a legal operand, type checks: otherwise the rejection says nothing.
"""
import glob, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import irprep

CODES = {'bool': 1, 'int': 2, 'double': 3, 'size_t': 4}
PRE = r'''
#include "prelude.hpp"
#include <string>
#include <utility>
using namespace etr;
using Z = std::size_t; using VD = Vec<double>; using VI = Vec<int>; using VB = Vec<bool>; using BD = Vec<double, Borrow<double>>;
using VS = Vec<std::string>;
struct Other {};
namespace wit {
template <class X> struct ET { using t = std::remove_cvref_t<decltype(std::declval<const std::remove_cvref_t<X> &>()[0])>; };
template <class X> requires std::is_arithmetic_v<std::remove_cvref_t<X>> struct ET<X> { using t = std::remove_cvref_t<X>; };
template <int> struct Code;
template <class T> constexpr int code = std::is_same_v<T, bool> ? 1 : std::is_same_v<T, int> ? 2 : std::is_same_v<T, double> ? 3 : std::is_same_v<T, Z> ? 4 : 9;
}
'''
DECL = 'extern VD d; extern VI i; extern VB b; extern BD B; extern int si; extern double sd; extern bool sb; extern Z sz;\n'


def run(prop, repo, here, work, thorough, only):
    files = sorted(glob.glob(os.path.join(here, 'drivers', prop, '*.wit')))
    if not files:
        return []
    flags = ['-std=c++20', '-w', '-I' + os.path.join(repo, 'include'), '-I' + os.path.join(here, 'drivers')]
    hpp = os.path.join(work, 'wit.hpp')
    open(hpp, 'w').write(PRE)
    pch = os.path.join(work, 'wit.pch')
    r = subprocess.run([irprep.CLANG] + flags + ['-x', 'c++-header', hpp, '-o', pch], capture_output=True, text=True)
    if r.returncode:
        return [dict(name='headers', items=[('witnesses', 'vacuous', 'the headers do not compile: ' + r.stderr[:300], None)], lines=[], stats={}, nf={})]
    wit = []
    for f in files:
        for n, ln in enumerate(open(f).read().split('\n')):
            ln = ln.strip()
            if not ln or ln.startswith('#'):
                continue
            p = [x.strip() for x in ln.split(' | ')]
            kind, name = p[0].split()
            if only is None or name in only:
                wit.append((kind, name, p[1], p[2], '%s:%d' % (os.path.basename(f), n + 1)))

    def comp(tag, code):
        f = os.path.join(work, 'w_%s.cpp' % tag)
        open(f, 'w').write(code)
        r = subprocess.run([irprep.CLANG] + flags + ['-include-pch', pch, '-fsyntax-only', f], capture_output=True, text=True)
        os.remove(f)
        e = re.findall(r'^(\S+):(\d+):\d+: (?:fatal )?error: (.*)', r.stderr, re.M)
        return r.returncode == 0, (e[0] if e else ('', '', r.stderr[:200])), r.stderr

    def at(e):
        f = e[0]
        f = os.path.relpath(f, repo) if os.path.realpath(f).startswith(os.path.realpath(repo) + os.sep) else 'the program'
        return '%s:%s: %s' % (f, e[1], e[2][:160])

    def one(w):
        kind, name, a, c, where = w
        t0 = time.time()
        if kind == 'no':
            ok, e, _ = comp(name + '_y', a + '\n')
            bad, e2, _ = comp(name + '_n', c + '\n')
            if bad:
                it = [('rejected', 'VIOLATED', 'accepted by the type checker: ' + c, None)]
            elif not ok:
                it = [('rejected', 'unknown', 'its legal twin is rejected as well: ' + at(e), None)]
            else:
                it = [('accepted-twin', 'proved', a, None), ('rejected', 'proved', 'at ' + at(e2), None)]
        else:
            ok, e, err = comp(name + '_t', DECL + 'using TT = wit::ET<decltype(%s)>::t;\nwit::Code<wit::code<TT>> ww;\n' % a)
            errs = re.findall(r'^\S+:\d+:\d+: (?:fatal )?error: (.*)', err, re.M)
            m = re.search(r'Code<(\d)>', err)
            if not m or any('Code<' not in x for x in errs):
                it = [('type', 'unknown', 'the expression is rejected: ' + at(e), None)]
            elif int(m.group(1)) == CODES[c]:
                it = [('type', 'proved', '%s is %s' % (a, c), None)]
            else:
                got = [k for k, v in CODES.items() if v == int(m.group(1))]
                it = [('type', 'VIOLATED', 'elements of %s are %s, not %s' % (a, got[0] if got else 'of another type', c), None)]
        return dict(name=name, items=it, lines=[], stats={}, nf={'witness': where + '  ' + (c if kind == 'no' else a)}, wall=time.time() - t0)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, wit))
