"""T01 and T02: type list queries and transformations against Python lists."""
import itertools

from ctlib import Case, Target
from universe import DECLS, SIZED, LISTS, ALL, SIZE, many, types, tl

PRE = '''#include <array>
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utils/type_list.h>
#include <utils/value_list.h>
''' + DECLS + '''
template <typename U, typename A> struct SmallerThan : std::bool_constant<(sizeof(U) < sizeof(A))> {};
template <typename U, typename... R> struct OneOf : std::bool_constant<(std::is_same_v<U, R> || ...)> {};
template <typename U, typename F, typename... R> struct OneOfRest : std::bool_constant<(std::is_same_v<U, R> || ...)> {};
template <typename... A> struct Same2 : std::is_same<A...> {};
template <typename T> using alias_const = std::is_const<T>;
'''
SZ = [t for t, _ in SIZED + LISTS]



def few_sizes(c):
    """types of one to three sizes only"""
    z = [c.pick(sorted(set(SIZE.values()))) for _ in range(1 + c.below(3))]
    return [t for t in SZ if SIZE[t] in z]


def b(v):
    return 'true' if v else 'false'


def member_pred(c, k, ts, name='P'):
    """a unary predicate true for a random set of types"""
    cand = sorted(set(ts + [c.pick(ALL) for _ in range(2)]), key=lambda t: (t not in ts, ts.index(t) if t in ts else 0, t))
    pc = c.pick([10, 50, 90])
    yes = [t for t in cand if c.chance(pc)]
    k.decl('template <typename T> struct %s : std::false_type {};' % name)
    for t in yes:
        k.decl('template <> struct %s<%s> : std::true_type {};' % (name, t))
    return lambda t: t in yes


def std_pred(c):
    return c.pick([('std::is_const', lambda t: t.endswith(' const') and not t.startswith('void()') or t in ('int *const', 'int const[2]')),
                   ('std::is_void', lambda t: t in ('void', 'void const')),
                   ('std::is_reference', lambda t: t.endswith('&') or '(&)' in t)])


def gen_t01(c, long=False):
    k = Case()
    ts = many(c) if long else types(c, 6, 30)
    n = len(ts)
    k.decl('using L = %s;' % tl(ts))
    k.check('L::size == %d' % n, 'size')
    k.trace = tl(ts)
    for _ in range(3):
        f = c.below(11) if not long or c.chance(60) else c.pick([1, 6, 9])
        x = c.pick(ts) if ts and c.chance(70) else c.pick(ALL)
        if long and c.chance(60):
            x = c.pick([ts[255], ts[-1]])
        if f == 0 and n:
            i = n - 1 if c.chance(20) else c.below(n)
            k.check('std::is_same_v<L::at<%d>, %s>' % (i, ts[i]), 'at<%d>' % i)
            k.trace += ' at<%d>' % i
        elif f == 1:
            k.check('L::first_index_of_type<%s> == %d' % (x, ts.index(x) if x in ts else n), 'first_index_of_type<%s>' % x)
            k.trace += ' first_index_of_type<%s>' % x
        elif f == 2:
            k.check('L::count_of<%s> == %d' % (x, ts.count(x)), 'count_of<%s>' % x)
            k.trace += ' count_of<%s>' % x
        elif f == 3:
            if x.startswith('utils::type_list<'):
                x = 'int'
            k.check('L::contains_v<%s> == %s && L::contains<%s>::value == %s' % (x, b(x in ts), x, b(x in ts)), 'contains<%s>' % x)
            k.trace += ' contains<%s>' % x
        elif f == 4:
            xs = [c.pick(ts) if ts and c.chance(85) else c.pick(ALL) for _ in range(c.length(3, 8))]
            xs = [x for x in xs if not x.startswith('utils::type_list<')]
            k.check('L::contains_v<%s> == %s' % (tl(xs), b(all(x in ts for x in xs))), 'contains<%s>' % tl(xs))
            k.trace += ' contains<%s>' % tl(xs)
            k.label('contains all of a list')
        elif f == 5:
            nm = 'P%d' % len(k.decls)
            if c.chance(25):
                nm, p = std_pred(c)
            else:
                p = member_pred(c, k, ts, nm)
            hits = [t for t in ts if p(t)]
            k.check('L::count_of_predicate_compliant<%s> == %d' % (nm, len(hits)), 'count_of_predicate_compliant')
            k.check('L::contains_predicate_compliant<%s> == %s' % (nm, b(hits)), 'contains_predicate_compliant')
            k.check('L::index_of<%s> == %d' % (nm, next((i for i, t in enumerate(ts) if p(t)), n)), 'index_of a predicate')
            if hits:
                i = len(hits) - 1 if c.chance(30) else c.below(len(hits))
                k.check('std::is_same_v<L::at<%d, %s>, %s>' % (i, nm, hits[i]), 'at<%d, predicate>' % i)
                k.label('at with predicate')
            k.trace += ' predicate true for %s' % hits
        elif f == 6:
            ys = [c.pick(ts) if ts and c.chance(50) else c.pick(ALL) for _ in range(c.below(4))]
            k.check('L::index_of<OneOf%s> == %d' % (''.join(', ' + y for y in ys), next((i for i, t in enumerate(ts) if t in ys), n)),
                    'index_of<OneOf, %s>' % ', '.join(ys))
            if ys:
                k.check('L::index_of<OneOfRest, %s> == %d' % (', '.join(ys), next((i for i, t in enumerate(ts) if t in ys[1:]), n)),
                        'index_of<OneOfRest, %s>' % ', '.join(ys))
                k.check('L::index_of<std::is_same, %s> == %d' % (ys[0], ts.index(ys[0]) if ys[0] in ts else n), 'index_of<is_same, %s>' % ys[0])
            k.trace += ' index_of<OneOf, %s>' % ', '.join(ys)
            k.label('predicate with arguments')
        elif f == 7:
            k.check('L::contains_copies == %s' % b(len(set(ts)) < n), 'contains_copies')
            k.label('copies', len(set(ts)) < n)
            k.trace += ' contains_copies'
        elif f == 8:
            same = list(ts)
            if n and c.chance(70):
                same = [ts[0]] * n
                if n > 1 and c.chance(50):
                    same[n - 1 if c.chance(40) else c.below(n)] = c.pick(ALL)
            k.check('%s::is_same == %s' % (tl(same), b(len(set(same)) <= 1)), 'is_same of ' + tl(same))
            k.label('all the same', len(set(same)) <= 1)
            k.trace += ' is_same of ' + tl(same)
        else:
            zs = many(c, SZ) if long else types(c, 6, 24, few_sizes(c) if c.chance(40) else SZ, 20)
            if zs:
                s = [SIZE[t] for t in zs]
                k.check('utils::min_sizeof_index_v<%s> == %d' % (tl(zs), s.index(min(s))), 'min_sizeof_index of ' + tl(zs))
                k.check('utils::max_sizeof_index_v<%s> == %d' % (tl(zs), s.index(max(s))), 'max_sizeof_index of ' + tl(zs))
                y = c.pick(SZ)
                k.check('%s::index_of<SmallerThan, %s> == %d' % (tl(zs), y, next((i for i, t in enumerate(s) if t < SIZE[y]), len(zs))),
                        'index_of<SmallerThan, %s>' % y)
                k.trace += ' smallest and largest of ' + tl(zs)
                k.label('sizes')
    k.nontrivial = n > 1
    k.label('empty list', n == 0)
    return k


VALS = ['0', '1', '-3', '7u', "'a'", "'b'", 'true', 'false', '5l', '9ull', 'E1{3}', 'E4(2)', '(short)4']


def vl(vs):
    return 'utils::value_list<%s>' % ', '.join(vs)


def gen_t02(c, long=False):
    k = Case()
    f = c.below(4 if long else 8)
    if f == 0:
        ts = (many(c) if long else types(c, 7, 30)) or ['int']
        n = len(ts)
        first = c.below(n)
        cnt = c.below(n - first + 1)
        if c.chance(20):
            first, cnt = 0, n
        k.check('std::is_same_v<utils::sublist_t<%s, %d, %d>, %s>' % (tl(ts), first, cnt, tl(ts[first:first + cnt])),
                'sublist %d+%d' % (first, cnt))
        k.check('std::is_same_v<utils::sublist_t<utils::type_list<>, 0, 0>, utils::type_list<>>', 'sublist of nothing')
        k.trace = 'sublist<%s, %d, %d>' % (tl(ts), first, cnt)
        k.nontrivial = n > 1 and cnt > 0
        k.label('sublist')
    elif f == 1:
        ts = (many(c) if long else types(c, 7, 30)) or ['int']
        n = len(ts)
        i = c.pick([0, n - 1, c.below(n)])
        k.check('std::is_same_v<utils::exclude_at_t<%s, %d>, %s>' % (tl(ts), i, tl(ts[:i] + ts[i + 1:])), 'exclude_at<%d>' % i)
        k.trace = 'exclude_at<%s, %d>' % (tl(ts), i)
        k.nontrivial = n > 1
        k.label('exclude_at')
    elif f == 2:
        ts = (many(c) if long else types(c, 7, 30))
        if c.chance(60):
            p = member_pred(c, k, ts)
            pr = 'P'
        else:
            ys = [c.pick(ts) if ts and c.chance(70) else c.pick(ALL) for _ in range(1 + c.below(3))]
            which = c.below(3)
            if which == 0:
                pr, p = 'OneOf, ' + ', '.join(ys), lambda t: t in ys
            elif which == 1:
                pr, p = 'OneOfRest, ' + ', '.join(ys), lambda t: t in ys[1:]
            else:
                ts = (many(c, SZ) if long else types(c, 7, 30, SZ))
                y = c.pick(SZ)
                pr, p = 'SmallerThan, ' + y, lambda t: SIZE[t] < SIZE[y]
        w = tl([t for t in ts if p(t)])
        k.check('std::is_same_v<%s::list_of_predicate_compliant_t<%s>, %s>' % (tl(ts), pr, w), 'list_of_predicate_compliant')
        k.check('std::is_same_v<%s::list_of_predicate_compliant<%s>::type, %s>' % (tl(ts), pr, w), 'list_of_predicate_compliant')
        k.trace = 'filter of %s by %s' % (tl(ts), pr)
        k.nontrivial = len(ts) > 1
        k.label('filter')
    elif f == 3:
        m = 1 + c.length(3, 8)
        if long or c.chance(70):
            ls = [types(c, 2, 8) for _ in range(m)]
            if long:
                ls[c.below(m)] = many(c)
            e, w = ', '.join(map(tl, ls)), tl(sum(ls, []))
        else:
            ls = [[c.pick(VALS) for _ in range(c.length(2, 8))] for _ in range(m)]
            e, w = ', '.join(map(vl, ls)), vl(sum(ls, []))
            k.label('value lists')
        k.check('std::is_same_v<utils::concatenate_t<%s>, %s>' % (e, w), 'concatenate')
        k.trace = 'concatenate<%s>' % e
        k.nontrivial = m > 1
        k.label('concatenate')
        k.label('an empty list', [] in ls)
    elif f in (4, 5):
        ts = types(c, 7, 18, few_sizes(c) if c.chance(40) else SZ, 30)
        up = c.chance(50)
        nm = 'utils::sort_sizeof_%s' % ('ascending' if up else 'descending')
        w = sorted(ts, key=lambda t: SIZE[t] * (1 if up else -1))
        k.check('std::is_same_v<%s_t<%s>, %s>' % (nm, tl(ts), tl(w)), nm)
        k.trace = '%s<%s>' % (nm, tl(ts))
        k.nontrivial = w != ts
        k.label('sort')
        k.label('sizes repeat', len(set(SIZE[t] for t in ts)) < len(set(ts)))
    else:
        m = 2 + c.pick([0, 0, 1, 1, 2, 3, 4, 5, 6])
        mx = {2: 6, 3: 4, 4: 3}.get(m, 2)
        val = c.chance(50)
        ls = []
        for _ in range(m):
            s = 0 if c.chance(6) else 1 + c.below(mx)
            if m > 4 and sum(len(x) == 2 for x in ls) > 3:
                s = min(s, 1)
            ls.append([c.pick(VALS) if val else c.pick(ALL) for _ in range(s)])
        mk = vl if val else tl
        w = tl([mk(list(p)) for p in itertools.product(*ls)])
        k.check('std::is_same_v<utils::cartesian_product_t<%s>, %s>' % (', '.join(map(mk, ls)), w), 'cartesian product')
        k.check('std::is_same_v<utils::cartesian_product<%s>::type, %s>' % (', '.join(map(mk, ls)), w), 'cartesian product')
        k.trace = 'cartesian_product<%s>' % ', '.join(map(mk, ls))
        k.nontrivial = all(ls) and sum(map(len, ls)) > m
        k.label('product of %d' % m)
        k.label('product with an empty list', [] in ls)
    return k


def gen_reject(c):
    k = Case()
    ts = types(c, 5, 15)
    n = len(ts)
    if c.chance(60):
        first = c.below(n + 3)
        cnt = max(1, n - first + 1 + c.below(3))
        if c.chance(30):  # nothing, taken from behind the last element
            first, cnt = n + c.below(3) + (not ts), 0
        bad = 'utils::sublist_t<%s, %d, %d>' % (tl(ts), first, cnt)
        good = 'utils::sublist_t<%s, 0, %d>' % (tl(ts), n)
    elif c.chance(30):
        bad = '%s::at<%d>' % (tl(ts), n + c.below(4))
        good = '%s::at<%d>' % (tl(ts or ['int']), max(n - 1, 0))
        bad, good = ('std::add_pointer_t<%s>' % x for x in (bad, good))
    else:
        i = n + c.below(4)
        bad = 'utils::exclude_at_t<%s, %d>' % (tl(ts), i)
        good = 'utils::exclude_at_t<%s, %d>' % (tl(ts or ['int']), max(n - 1, 0))
    k.reject('using X = %s; X *p;' % bad, 'using X = %s; X *p;' % good)
    k.trace = bad
    k.nontrivial = True
    return k


RULE = 'a generated list of types and up to three queries on it; non-trivial: two or more elements'
RULE2 = 'one generated transformation; non-trivial: it has work to do (several elements, for sorts an order to change)'
RULE3 = 'one request out of range, which must not compile, beside its nearest valid form, which must; all non-trivial'
T01 = [Target('queries', RULE, 15000, 400000, gen_t01, batch=125, preamble=PRE),
       Target('queries_clang', RULE, 800, 20000, gen_t01, batch=100, preamble=PRE, cxx='clang++')]
LONG = ' over more than 255 types; all non-trivial'
T01.append(Target('long_lists', 'up to three queries' + LONG, 64, 1500, lambda c: gen_t01(c, True), batch=4, preamble=PRE))
T02 = [Target('transformations', RULE2, 12000, 300000, gen_t02, batch=125, preamble=PRE),
       Target('transformations_clang', RULE2, 800, 20000, gen_t02, batch=100, preamble=PRE, cxx='clang++'),
       Target('out_of_range', RULE3, 160, 3000, gen_reject, batch=4, preamble=PRE, reject=True)]
T02.append(Target('long_lists', 'one sublist, exclusion, filter or concatenation' + LONG, 32, 600, lambda c: gen_t02(c, True), batch=4, preamble=PRE))
