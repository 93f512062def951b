"""M09 in constant evaluation: the same operations inside constexpr functions, bytes compared with a model."""
from ctlib import Case, Target

PRE = '''#include <array>
#include <cstddef>
#include <utils/memory/memory.h>
namespace um = utils::memory;
enum class E8 : unsigned char {};
template <typename T, std::size_t N> struct Raw { T v[N]; };
'''
TYPES = ['std::byte', 'char', 'unsigned char', 'signed char', 'E8']


def lit(ty, v):
    if ty in ('char', 'signed char') and v > 127:
        v -= 256
    return '%s(%d)' % ('(%s)' % ty if ' ' in ty else ty, v)


def gen(c):
    k = Case()
    n = 1 + c.length(10, 40)
    m = [c.pick([0, 1, 127, 128, 255, c.below(256)]) for _ in range(n)]
    ty = c.pick(TYPES) if c.chance(40) else 'std::byte'
    body = ['%s a[%d] = {%s};' % (ty, n, ', '.join(lit(ty, v) for v in m))]
    chk = []
    for q in range(1 + c.length(2, 6)):
        op = c.weighted([4, 2, 2, 4]) if ty == 'std::byte' else 3
        off = c.below(n + 1)
        ln = c.below(n - off + 1)
        if op == 0:
            d = c.below(n - ln + 1)
            if ln > 1 and c.chance(60):
                d = max(0, min(n - ln, off + c.range(-3, 3)))
            if ln == 0:
                off = min(off, n - 1)
                d = min(d, n - 1)
            body.append('if (um::memmove(a + %d, a + %d, %d) != a + %d) return false;' % (d, off, ln, d))
            m[d:d + ln] = m[off:off + ln]
            k.label('overlapping move', d != off and abs(d - off) < ln)
            k.nontrivial |= ln > 1 and d != off
        elif op == 1:
            body.append('um::secure_zero_memory(a + %d, %d);' % (off, ln))
            m[off:off + ln] = [0] * ln
            k.nontrivial |= ln > 1
        elif op == 2:
            how = c.below(4)
            if how == 0:
                body.append('if (um::secure_zero_memory_safe(nullptr, %d) == 0) return false;' % ln)
                body.append('if (um::secure_zero_memory_safe(nullptr, %d) == um::secure_zero_memory_safe(a, 0)) return false;' % ln)
            elif how == 1:
                body.append('if (um::secure_zero_memory_safe(a + %d, 0) == 0) return false;' % off)
            elif ln:
                body.append('if (um::secure_zero_memory_safe(a + %d, %d) != 0) return false;' % (off, ln))
                m[off:off + ln] = [0] * ln
        else:
            ft = c.pick(TYPES)
            src = [c.pick([0, 1, 127, 128, 255, c.below(256)]) for _ in range(ln + c.below(3) + 1)]
            so = c.below(len(src) - ln + 1)
            body.append('const %s s%d[%d] = {%s};' % (ft, q, len(src), ', '.join(lit(ft, v) for v in src)))
            body.append('um::memcpy(a + %d, s%d + %d, %d);' % (off, q, so, ln))
            m[off:off + ln] = src[so:so + ln]
            k.nontrivial |= ln > 1
        want = ', '.join(lit(ty, v) for v in m)
        body.append('{ const %s w[%d] = {%s}; for (int i = 0; i < %d; ++i) if (a[i] != w[i]) return false; }' %
                    (ty, n, want, n))
    k.decl('constexpr bool f() { %s return true; }' % ' '.join(body))
    k.check('f()', 'bytes after ' + ' '.join(body)[:300])
    k.trace = ' '.join(body)[:400]
    return k


RULE = 'constexpr history of byte operations on one array; non-trivial: an operation on two or more bytes'
TARGETS = [Target('constant_evaluation', RULE, 1500, 60000, gen, batch=60, preamble=PRE),
           Target('constant_evaluation_clang', RULE, 300, 8000, gen, batch=60, preamble=PRE, cxx='clang++')]
