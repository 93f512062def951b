"""T07: small predicates and transformations on generated types."""
from ctlib import Case, Target
from universe import DECLS, SIZED, LISTS, ALL, SIZE, UNSIZED, REFS
from arith_ct import INTS, lit, lo_hi

PRE = '''#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <list>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <utils/type_list.h>
#include <utils/value_list.h>
#include <utils/common.h>
''' + DECLS + '''
template <typename... T> struct type_list_like {};
struct My : std::array<int, 3> {};
struct Tu : std::tuple<int> {};
'''
UNS = ['unsigned char', 'unsigned short', 'unsigned int', 'unsigned long', 'unsigned long long', 'char16_t', 'char32_t']
CV = ['', ' const', ' volatile', ' const volatile']
REF = ['', ' &', ' &&']
BASE = ['int', 'bool', 'char', 'signed char', 'std::byte', 'float', 'double', 'long', 'wchar_t', 'S3', 'E1', 'E4', 'int *', 'Em',
        'std::nullptr_t'] + UNS
BSIZE = dict(SIZED, **{'std::byte': 1})


def b(v):
    return 'true' if v else 'false'


def some(c, depth=0):
    """(kind, spelling, inner) of a type without cv or reference"""
    f = c.weighted([6, 3, 3, 3, 2, 2, 2]) if depth < 2 else 0
    if f == 0:
        return ('base', c.pick(BASE), None)
    if f == 1:
        e = some(c, depth + 1)
        cv = c.pick(['', '', '', ' const'])
        n = c.pick([0, 1, 2, 3, 17])
        return ('array', 'std::array<%s%s, %d>' % (e[1], cv, n), (e[1] + cv, n))
    if f == 2:
        es = [some(c, depth + 1)[1] + c.pick(REF) for _ in range(c.below(4))]
        return ('tuple', 'std::tuple<%s>' % ', '.join(es), es)
    if f == 3:
        e = some(c, depth + 1)
        cv = c.pick(['', '', ' const'])
        if e[0] == 'base' and c.chance(15):
            return ('ref', 'std::reference_wrapper<int(int)>', 'int(int)')
        return ('ref', 'std::reference_wrapper<%s%s>' % (e[1], cv), e[1] + cv)
    if f == 4:
        es = [some(c, depth + 1)[1] + c.pick(REF) for _ in range(c.below(4))]
        return ('type_list', 'utils::type_list<%s>' % ', '.join(es), es)
    if f == 5:
        return ('value_list', 'utils::value_list<%s>' % ', '.join(c.pick(['1', "'c'", 'true', '5u']) for _ in range(c.below(4))), None)
    others = ['std::pair<int, int>', 'type_list_like<int>', 'My', 'Tu', 'std::vector<int>', 'int[3]', 'std::tuple<int>[2]',
                             'std::array<int, 2> *', 'std::reference_wrapper<int> *', 'void (*)()',
                             'std::vector<std::array<int, 2>>', 'std::integer_sequence<int, 1, 2>']
    if depth:
        others = [o for o in others if not o.endswith((']', ')'))]
    return ('other', c.pick(others), None)


def qual(t, cv, ref):
    if cv and (t.endswith('*') or t == 'void (*)()'):
        if t == 'void (*)()':
            return 'void (*%s)()' % cv.strip() + ('' if not ref else ''), not ref
        return t + cv + ref, True
    if t.endswith(']'):
        if ref:
            return None, False
        h, _, z = t.partition('[')
        return h + cv + '[' + z, True
    if t == 'void (*)()' and ref:
        return None, False
    return t + cv + ref, True


def gen(c):
    k = Case()
    f = c.below(8)
    if f <= 2:
        kind, t, inner = some(c)
        cv, ref = c.pick(CV), c.pick(REF)
        q, ok = qual(t, cv, ref)
        if not ok:
            cv = ref = ''
            q = t
        k.trace = q
        k.label(kind + (cv and ' cv') + (ref and ' ref'))
        k.check('std::is_same_v<utils::remove_cvref_t<%s>, %s> && std::is_same_v<utils::remove_cvref<%s>::type, %s>' %
                (q, t, q, t), 'remove_cvref<%s>' % q)
        uint = kind == 'base' and t in UNS and not ref
        k.check('utils::is_uint_v<%s> == %s && utils::is_uint<%s>::value == %s' % (q, b(uint), q, b(uint)), 'is_uint<%s>' % q)
        ub = uint or (t == 'std::byte' and not ref)
        k.check('utils::is_uint_or_byte_v<%s> == %s && utils::is_uint_or_byte<%s>::value == %s' % (q, b(ub), q, b(ub)),
                'is_uint_or_byte<%s>' % q)
        k.check('utils::is_std_array_v<%s> == %s' % (q, b(kind == 'array')), 'is_std_array<%s>' % q)
        if kind == 'array':
            k.check('std::is_same_v<utils::std_array_data_t<%s>, %s>' % (q, inner[0]), 'std_array_data_t<%s>' % q)
            k.check('utils::std_array_size_v<%s> == %d' % (q, inner[1]), 'std_array_size_v<%s>' % q)
        if not cv and not ref:
            k.check('utils::is_tuple_v<%s> == %s && utils::is_tuple<%s>::value == %s' % (t, b(kind == 'tuple'), t, b(kind == 'tuple')),
                    'is_tuple<%s>' % t)
            k.check('utils::is_ref_wrapper_v<%s> == %s' % (t, b(kind == 'ref')), 'is_ref_wrapper<%s>' % t)
            k.check('utils::is_type_list_v<%s> == %s' % (t, b(kind == 'type_list')), 'is_type_list<%s>' % t)
            k.check('utils::is_value_list_v<%s> == %s' % (t, b(kind == 'value_list')), 'is_value_list<%s>' % t)
            w = 'std::add_lvalue_reference_t<%s>' % inner if kind == 'ref' else t
            k.check('std::is_same_v<utils::unwrap_reference_t<%s>, %s> && std::is_same_v<utils::unwrap_reference<%s>::type, %s>' %
                    (t, w, t, w), 'unwrap_reference<%s>' % t)
        elif kind != 'ref':
            k.check('std::is_same_v<utils::unwrap_reference_t<%s>, %s>' % (q, q), 'unwrap_reference<%s>' % q)
            if ref:
                k.check('!utils::is_tuple_v<%s> && !utils::is_ref_wrapper_v<%s> && !utils::is_type_list_v<%s> && !utils::is_value_list_v<%s>' %
                        (q, q, q, q), 'a reference %s is no list, tuple or wrapper' % q)
        k.check('std::is_same_v<decltype(utils::tag<%s>), const utils::tag_t<%s>>' % (q, q), 'tag<%s>' % q)
        k.nontrivial = kind != 'base' or bool(cv or ref) or t in UNS
    elif f == 3:
        n = c.length(3, 10)
        if c.chance(60) and n:
            s = c.pick([1, 4, 8, 16, 2, 12])
            pool = [t for t, z in SIZED if z == s]
            ts = [c.pick(pool) for _ in range(n)]
            if c.chance(50):
                ts[n - 1 if c.chance(40) else c.below(n)] = c.pick(SIZED)[0]
        else:
            ts = [c.pick(SIZED)[0] for _ in range(n)]
        w = len(set(SIZE[t] for t in ts)) <= 1
        k.check('utils::is_equal_sizes_v<%s> == %s && utils::is_equal_sizes<%s>::value == %s' % (', '.join(ts), b(w), ', '.join(ts), b(w)),
                'is_equal_sizes<%s>' % ', '.join(ts))
        k.trace = 'is_equal_sizes<%s>' % ', '.join(ts)
        k.label('equal sizes' if w else 'different sizes')
        k.nontrivial = n > 1
    elif f == 4:
        n = c.length(3, 8)
        z = [c.pick([0, 1, 2, 5, 100, 255, 65535, 65536, (1 << 32) + 3]) for _ in range(n)]
        ts = ['std::array<%s, %d>%s%s' % (c.pick(['int', 'char', 'S3']), s, c.pick(['', ' const']), c.pick(REF)) for s in z]
        k.check('utils::std_array_sizes_sum<%s> == %d' % (', '.join(ts), sum(z)), 'std_array_sizes_sum')
        k.trace = 'std_array_sizes_sum<%s>' % ', '.join(ts)
        k.nontrivial = n > 1
    elif f == 5:
        e1, e2 = c.pick(['int', 'char', 'int const']), c.pick(['int', 'char', 'int const'])
        q1, q2 = c.pick(['', ' const', ' &', ' const &', ' &&']), c.pick(['', ' const', ' &', ' const &', ' &&'])
        a1, a2 = 'std::array<%s, %d>%s' % (e1, c.below(4), q1), 'std::array<%s, %d>%s' % (e2, c.below(4), q2)
        k.check('utils::is_same_data_std_arrays<%s, %s> == %s' % (a1, a2, b(e1 == e2)), 'is_same_data_std_arrays<%s, %s>' % (a1, a2))
        k.trace = 'is_same_data_std_arrays<%s, %s>' % (a1, a2)
        k.nontrivial = True
    elif f == 6:
        t = c.pick([x for x in INTS if x != 'bool'])
        lo, hi = lo_hi(t)
        n = c.length(4, 20)
        vs = [max(lo, min(hi, c.pick([c.below(40), -c.below(40), lo, hi, c.below(hi + 1)]))) for _ in range(n)]
        s = c.pick([0, 1, 2, -1, 10, 100])
        if INTS[t][0] < 64:
            nt = 'int'
        else:
            nt = t
        vs = [v for v in vs if lo <= v + s <= hi and (INTS[t][1] or v + s >= 0)]
        if s < 0 and not INTS[t][1]:
            s = 1
            vs = [v for v in vs if v < hi]
        if INTS[t] == (32, False):
            nt = t
        sq = 'std::integer_sequence<%s%s>' % (t, ''.join(', ' + lit(t, v) for v in vs))
        wq = 'std::integer_sequence<%s%s>' % (t, ''.join(', ' + lit(t, v + s) for v in vs))
        k.check('std::is_same_v<utils::shifted_sequence_t<%s, %s>, %s>' % (sq, lit(nt, s), wq), 'shifted_sequence by %d' % s)
        k.trace = 'shifted_sequence<%s, %d>' % (sq, s)
        k.nontrivial = len(vs) > 1 and s != 0
    else:
        t = c.pick(UNSIZED[:4] + REFS)
        k.check('!utils::is_uint_v<%s> && !utils::is_uint_or_byte_v<%s> && !utils::is_tuple_v<%s> && !utils::is_ref_wrapper_v<%s> && '
                '!utils::is_type_list_v<%s> && !utils::is_value_list_v<%s> && !utils::is_std_array_v<%s>' % ((t,) * 7), 'predicates of ' + t)
        k.check('std::is_same_v<utils::unwrap_reference_t<%s>, %s>' % (t, t), 'unwrap_reference<%s>' % t)
        k.check('std::is_same_v<utils::remove_cvref_t<%s>, std::remove_cv_t<std::remove_reference_t<%s>>>' % (t, t), 'remove_cvref<%s>' % t)
        k.trace = t
        k.nontrivial = True
    return k


RULE = 'one generated type (or list of types) under every predicate that applies; non-trivial: qualified, compound, unsigned or several'
TARGETS = [Target('predicates', RULE, 10000, 300000, gen, batch=125, preamble=PRE),
           Target('predicates_clang', RULE, 1500, 30000, gen, batch=100, preamble=PRE, cxx='clang++')]
