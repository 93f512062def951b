"""A06: generated programs which iterate over arguments and tuples with a recording callable."""
from ctlib import Case, Target

PRE = '''#include <array>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <utils/type_list.h>
#include <utils/common.h>
struct Nc { int v; explicit Nc(int i) : v(i) {} Nc(const Nc &) = delete; Nc &operator=(const Nc &) = delete; };
struct Mo { int v; explicit Mo(int i) : v(i) {} Mo(Mo &&o) noexcept : v(o.v) { o.v = -1; } };
struct Seen { const void *p; int type, cat, cst, val; };
inline std::vector<Seen> seen;
template <typename T> struct type_id;
template <> struct type_id<int> { static constexpr int v = 0; static int val(int x) { return x; } };
template <> struct type_id<long> { static constexpr int v = 1; static int val(long x) { return (int)x; } };
template <> struct type_id<std::string> { static constexpr int v = 2; static int val(const std::string &x) { return (int)x.size(); } };
template <> struct type_id<Nc> { static constexpr int v = 3; static int val(const Nc &x) { return x.v; } };
template <> struct type_id<Mo> { static constexpr int v = 4; static int val(const Mo &x) { return x.v; } };
template <> struct type_id<double> { static constexpr int v = 5; static int val(double x) { return (int)x; } };
struct Rec {
    template <typename T> auto operator()(T &&x) {
        using U = std::remove_reference_t<T>;
        using V = std::remove_cv_t<U>;
        seen.push_back({(const void *)&x, type_id<V>::v, std::is_lvalue_reference_v<T>, std::is_const_v<U>, type_id<V>::val(x)});
        RET
    }
};
struct RecV : Rec { template <typename T> void operator()(T &&x) { (void)Rec::operator()(std::forward<T>(x)); } };
struct RecC { template <typename T> int operator()(T &&x) const { Rec r; (void)r(std::forward<T>(x)); return 3; } };
'''.replace('RET', 'return seen.size();')
TY = ['int', 'long', 'std::string', 'Nc', 'Mo', 'double']


def init(t, v):
    return {'std::string': "std::string(%d, 'x')" % v}.get(t, '%s(%d)' % (t, v))


def expect(k, cond, what):
    k.run('if (!(%s)) return "%s";' % (cond, what))


def gen(c):
    k = Case()
    n = c.length(4, 9)
    if c.chance(5):
        n = 10 + c.below(24)
    f = c.below(3)
    fn = c.pick(['Rec', 'RecV', 'RecC'])
    call = c.pick(['%s{}' % fn, 'f', 'std::move(f)'])
    k.run('seen.clear(); %s f; (void)f;' % fn)
    vals = [c.below(40) for _ in range(n)]
    if f == 0:
        want, args = [], []
        for i, v in enumerate(vals):
            t = TY[c.below(6)]
            q = c.pick(['lv', 'clv', 'rv', 'crv', 'tmp'])
            if q != 'tmp':
                k.run('%s%s x%d(%s);' % ('const ' if q[0] == 'c' else '', t, i, ("%d, 'x'" % v) if t == 'std::string' else v))
            args.append('x%d' % i if 'lv' in q else init(t, v) if q == 'tmp' else 'std::move(x%d)' % i)
            want.append((TY.index(t), int('lv' in q), int(q[0] == 'c'), v, '&x%d' % i if q != 'tmp' else None))
        k.run('utils::for_each_arg(%s);' % ', '.join([call] + args))
        k.trace = 'for_each_arg(%s)' % ', '.join([call] + args)
    else:
        # tuple elements: values or references; the tuple itself lvalue, const lvalue or rvalue
        ts = []
        for _ in vals:
            t = TY[c.below(6)]
            ts.append((t, c.pick(['', '', '', ' &', ' const &', ' &&', 'const']) ))
        arrlike = f == 2 and n
        q = c.pick(['lv', 'clv', 'rv', 'crv'])
        if arrlike:
            t = c.pick(['int', 'long', 'std::string', 'double'])
            ts = [(t, '')] * n
            kind = 'std::array<%s, %d>' % (t, n) if c.chance(60) or n != 2 else 'std::pair<%s, %s>' % (t, t)
            body = ', '.join(init(t, v) for v in vals)
            if kind.startswith('std::array'):
                k.run('%s%s tp = {{%s}};' % ('const ' if q[0] == 'c' else '', kind, body))
            else:
                k.run('%s%s tp(%s);' % ('const ' if q[0] == 'c' else '', kind, body))
        else:
            tys, ins = [], []
            for i, ((t, r), v) in enumerate(zip(ts, vals)):
                if t == 'Nc' and '&' not in r:
                    # constructible in place from int
                    pass
                if '&' in r:
                    k.run('%s y%d(%s);' % (t, i, ("%d, 'x'" % v) if t == 'std::string' else v))
                    ins.append('std::move(y%d)' % i if '&&' in r else 'y%d' % i)
                    tys.append(t + r)
                elif r == 'const':
                    ins.append(str(v) if t != 'std::string' else init(t, v))
                    tys.append(t + ' const')
                else:
                    ins.append(str(v) if t != 'std::string' else init(t, v))
                    tys.append(t)
            kind = 'std::tuple<%s>' % ', '.join(tys)
            k.run('%s%s tp%s;' % ('const ' if q[0] == 'c' else '', kind, '(%s)' % ', '.join(ins) if ins else ''))
            k.label('tuple of references', any('&' in x for x in tys))
        want = []
        for i, ((t, r), v) in enumerate(zip(ts, vals)):
            cst = int('const' in r or ('&' not in r and q[0] == 'c'))
            if '&&' in r:
                lv = int('lv' in q)
            elif '&' in r:
                lv = 1
            else:
                lv = int('lv' in q)
            want.append((TY.index(t), lv, cst, v, '&std::get<%d>(tp)' % i))
        k.run('utils::for_each_in_tuple(%s, %s);' % (call, 'tp' if 'lv' in q else 'std::move(tp)'))
        k.label('tuple ' + q)
        k.trace = 'for_each_in_tuple(%s, %s %s)' % (call, q, kind)
    expect(k, 'seen.size() == %d' % n, 'the callable ran another number of times')
    for i, (t, lv, cst, v, p) in enumerate(want):
        expect(k, 'seen[%d].type == %d' % (i, t), 'type of element %d' % i)
        expect(k, 'seen[%d].cat == %d' % (i, lv), 'value category of element %d' % i)
        expect(k, 'seen[%d].cst == %d' % (i, cst), 'constness of element %d' % i)
        expect(k, 'seen[%d].val == %d' % (i, v), 'value of element %d' % i)
        if p:
            expect(k, 'seen[%d].p == (const void *)%s' % (i, p), 'element %d is another object' % i)
    k.nontrivial = n > 1
    return k


RULE = 'one generated iteration over arguments or a tuple; non-trivial: two or more elements'
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
TARGETS = [Target('iteration', RULE, 3000, 80000, gen, batch=75, preamble=PRE, runs=True),
           Target('iteration_sanitized', RULE, 400, 10000, gen, batch=50, preamble=PRE, runs=True, flags=SAN)]
