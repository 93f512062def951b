"""T03: value list queries against Python lists of (type, value)."""
from ctlib import Case, Target
from arith_ct import INTS, lit, lo_hi, common, promote

PRE = '''#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utils/common.h>
#include <utils/value_list.h>
enum Un { ua, ub = 7, uc = 200, ud = 100000 };
enum class Sc : unsigned char {};
enum class Sl : long {};
struct M { int a; int b; long c; int f(); int g() const; };
inline int g0, g1; inline long h0; inline const int k0 = 3, k1 = 4;
inline int fn0(int) { return 0; } inline int fn1(int) { return 1; }
template <typename L, typename T, T V, std::size_t I> inline constexpr bool is_at =
    std::is_same_v<typename L::template at_t<I>, T> && std::is_same_v<decltype(L::template at<I>), const T> && L::template at<I> == V;
'''
# constants which are not integers: type -> (expression, identity)
OTHER = {'int *': [('&g0', 'g0'), ('&g1', 'g1'), ('(int *)nullptr', 'n')], 'long *': [('&h0', 'h0')],
         'int const *': [('&k0', 'k0'), ('&k1', 'k1')], 'std::nullptr_t': [('nullptr', 0)],
         'int M::*': [('&M::a', 'a'), ('&M::b', 'b')], 'long M::*': [('&M::c', 'c')],
         'int (*)(int)': [('&fn0', 'f0'), ('&fn1', 'f1')], 'int (M::*)()': [('&M::f', 'f')]}
ENUM = {'Un': ('unsigned int', [0, 7, 200, 100000]), 'Sc': ('unsigned char', [0, 1, 200]), 'Sl': ('long', [-5, 0, 1 << 40])}


def val(c, t):
    """(type, identity, expression)"""
    if t in OTHER:
        e, i = c.pick(OTHER[t])
        return (t, i, e)
    if t in ENUM:
        u, vs = ENUM[t]
        v = c.pick(vs)
        return (t, v, '%s(%d%s)' % (t, v, 'l' if abs(v) > 1 << 30 else ''))
    lo, hi = lo_hi(t)
    v = c.pick([0, 1, lo, hi, hi - 1, c.below(6), -c.below(4), c.bits(INTS[t][0] if INTS[t][0] > 1 else 2)])
    v = max(lo, min(hi, v))
    return (t, v, lit(t, v))


def b(v):
    return 'true' if v else 'false'


def gen(c, long=False):
    k = Case()
    pool = list(INTS) + list(ENUM) + list(OTHER)
    few = [c.pick(pool) for _ in range(1 + c.below(4))]
    n = c.length(6, 30)
    if c.chance(3):
        n = c.below(90)
    if long:
        few = few[:2]
        n = c.pick([256, 257, 256 + c.below(60)])
    odd = c.pick([0, 2, 30])
    vs = []
    for _ in range(n):
        if long and vs and not c.chance(odd):
            vs.append(vs[0] if c.chance(98) else c.pick(vs))
        elif vs and c.chance(30):
            vs.append(c.pick(vs))
        else:
            vs.append(val(c, c.pick(few) if c.chance(85) else c.pick(pool)))
    if c.chance(10) and n:
        vs = [vs[0]] * n
        if n > 1 and c.chance(60):
            vs[n - 1 if c.chance(40) else c.below(n)] = val(c, vs[0][0] if c.chance(60) else c.pick(pool))
    ids = [v[:2] for v in vs]
    ex = 'utils::value_list<%s>' % ', '.join(v[2] for v in vs)
    k.decl('using L = %s;' % ex)
    k.check('L::size == %d' % n, 'size')
    k.trace = ex
    for _ in range(4):
        f = c.below(9)
        # a value of the list, one of the same type, or one of another type with an equal number
        r = c.below(4)
        if vs and r <= 1:
            x = c.pick(vs)
            if r == 1 and x[0] in INTS:
                t2 = c.pick(list(INTS))
                lo, hi = lo_hi(t2)
                if lo <= x[1] <= hi:
                    x = (t2, x[1], lit(t2, x[1]))
        else:
            x = val(c, c.pick(few) if r == 2 else c.pick(pool))
        i0 = ids.index(x[:2]) if x[:2] in ids else n
        if f == 0 and n:
            i = n - 1 if c.chance(20) else c.below(n)
            k.check('is_at<L, %s, %s, %d>' % (vs[i][0], vs[i][2], i), 'at<%d>' % i)
            k.trace += ' at<%d>' % i
        elif f == 1:
            k.check('L::index_of<%s> == %d' % (x[2], i0), 'index_of<%s>' % x[2])
            k.trace += ' index_of<%s>' % x[2]
            k.label('equal number of another type', x[:2] not in ids and any(v[1] == x[1] for v in vs))
        elif f == 2:
            k.check('L::count_of<%s> == %d' % (x[2], ids.count(x[:2])), 'count_of<%s>' % x[2])
            k.trace += ' count_of<%s>' % x[2]
        elif f == 3:
            k.check('L::contains_v<%s> == %s && L::contains<%s>::value == %s' % (x[2], b(i0 < n), x[2], b(i0 < n)),
                    'contains<%s>' % x[2])
            k.trace += ' contains<%s>' % x[2]
        elif f == 4:
            k.check('L::contains_copies == %s' % b(len(set(ids)) < n), 'contains_copies')
            k.label('copies', len(set(ids)) < n)
            k.trace += ' contains_copies'
        elif f == 5:
            k.check('L::is_same_v == %s && L::is_same::value == %s' % (b(len(set(ids)) <= 1), b(len(set(ids)) <= 1)), 'is_same')
            k.label('all the same', len(set(ids)) <= 1)
            k.trace += ' is_same'
        elif f == 6:
            k.check('L::contains_type<%s> == %s' % (x[0], b(x[0] in [t for t, _ in ids])), 'contains_type<%s>' % x[0])
            k.trace += ' contains_type<%s>' % x[0]
        elif f == 7:
            w = 'utils::value_list<%s>' % ', '.join(v[2] for v in vs if v[0] == x[0])
            k.check('std::is_same_v<L::list_all_of_t<%s>, %s>' % (x[0], w), 'list_all_of<%s>' % x[0])
            k.check('std::is_same_v<L::list_all_of<%s>::type, %s>' % (x[0], w), 'list_all_of<%s>' % x[0])
            k.trace += ' list_all_of<%s>' % x[0]
            k.label('sublist of one type', w != ex and w != 'utils::value_list<>')
        else:
            t = x[0]
            m = [v for v in vs if v[0] == t]
            if m and t not in OTHER:
                lo, hi = min(m, key=lambda v: v[1]), max(m, key=lambda v: v[1])
                k.check('L::min<%s> == %s && L::max<%s> == %s' % (t, lo[2], t, hi[2]), 'min and max of %s' % t)
                k.check('std::is_same_v<decltype(L::min<%s>), const %s>' % (t, t), 'type of min')
                k.trace += ' min and max of %s' % t
                k.label('min and max', len(m) > 1)
    k.nontrivial = n > 1
    k.label('empty list', n == 0)
    k.label('several types', len(set(t for t, _ in ids)) > 1)
    return k


def gen_range(c):
    k = Case()
    t = c.pick([x for x in INTS if x != 'bool'])
    u = t if c.chance(60) else c.pick([x for x in INTS if x != 'bool'])
    r = common(t, u)
    lo = max(lo_hi(t)[0], lo_hi(u)[0], lo_hi(r)[0])
    hi = min(lo_hi(t)[1], lo_hi(u)[1])
    ln = c.pick([0, 1, c.below(12), c.below(12), c.below(70), c.below(300), hi - lo if hi - lo < 300 else 130])
    ln = min(ln, hi - lo)
    a = c.pick([lo, hi - ln, 0, -1, -(ln // 2), lo + c.bits(16)])
    a = max(lo, min(a, hi - ln))
    # two operands of different signedness are compared after conversion
    if a < 0 and not (INTS[t][1] and INTS[u][1]):
        a = max(0, min(0, hi - ln))
    z = a + ln
    if u != t and not INTS[r][1]:
        pass
    w = ', '.join(lit(r, v) for v in range(a, z + 1))
    k.check('std::is_same_v<utils::values_in_range_t<%s, %s>, utils::value_list<%s>>' % (lit(t, a), lit(u, z), w),
            'values from %s %d to %s %d' % (t, a, u, z))
    k.check('std::is_same_v<utils::values_in_range<%s, %s>::type, utils::value_list<%s>>' % (lit(t, a), lit(u, z), w),
            'values from %s %d to %s %d' % (t, a, u, z))
    k.nontrivial = ln > 0
    k.label('two types', t != u)
    k.label('at a limit of the type', a == lo_hi(t)[0] or z == lo_hi(u)[1])
    k.trace = 'values_in_range<%s %d, %s %d>' % (t, a, u, z)
    return k


RULE = 'a generated list of typed values and up to four queries on it; non-trivial: two or more elements'
RULE2 = 'one range of values; non-trivial: two or more values'
TARGETS = [Target('queries', RULE, 10000, 300000, gen, batch=125, preamble=PRE),
           Target('queries_clang', RULE, 1000, 20000, gen, batch=100, preamble=PRE, cxx='clang++'),
           Target('ranges', RULE2, 2000, 60000, gen_range, batch=60, preamble=PRE),
           Target('ranges_clang', RULE2, 400, 8000, gen_range, batch=50, preamble=PRE, cxx='clang++')]
TARGETS.append(Target('long_lists', 'up to four queries on more than 255 values; all non-trivial', 16, 400, lambda c: gen(c, True), batch=4, preamble=PRE))
