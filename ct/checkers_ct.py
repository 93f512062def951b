"""T05: the generated member, method and function checkers on generated classes; detection utilities."""
from ctlib import Case, Target
from universe import DECLS

PRE = '''#include <utils/function_traits.h>
#include <array>
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
''' + DECLS + '''
struct Hold { };
struct Nth { Nth(int) noexcept; };
struct Thr { Thr(int); };
struct Exq { explicit Exq(int); };
struct Drv : S3 { };
struct ToS3 { operator S3() const; };
struct ToE1 { operator E1() noexcept; };
template <typename T> struct TidS { using type = T; };
template <typename T> using Tid = typename TidS<T>::type;
template <typename P> void sink(Tid<P>) noexcept;
template <bool Ok, typename A, typename P> struct Quiet : std::false_type {};
template <typename A, typename P> struct Quiet<true, A, P> : std::bool_constant<noexcept(sink<P>(std::declval<A>()))> {};
// can an argument A initialise a parameter P, and without a throwing function?
template <typename A, typename P> constexpr bool conv = std::is_convertible_v<A, P>;
template <typename A, typename P> constexpr bool quiet = Quiet<conv<A, P>, A, P>::value;
'''
NAMES = ['m', 'foo', 'value_type', 'x1', 'Call', 'm_', 'get']
MTYPES = ['int', 'int const', 'double', 'int *', 'S3', 'Tm<int>', 'bool', 'E1', 'char const *', 'int &', 'int const &', 'void', 'Inc',
          'int[3]', 'Hold', 'std::unique_ptr<int>', 'S3 const', 'Drv', 'E4', 'int volatile', 'long', 'std::nullptr_t']
TOS = MTYPES + ['float', 'S3 &&', 'S3 const &', 'Nth', 'Exq', 'void *', 'unsigned']
DTYPES = ['int', 'int const', 'int volatile', 'double', 'int *', 'S3', 'Tm<int>', 'bool', 'E1', 'int[3]', 'Hold', 'void (*)()', 'int S3::*',
          'std::unique_ptr<int>', 'void (S3::*)()', 'S3 const', 'int **', 'int const *const']
PARAMS = ['int', 'int &', 'int const &', 'int &&', 'double', 'S3', 'S3 &', 'S3 const &', 'S3 &&', 'char const *', 'Thr', 'Nth', 'Exq', 'E1', 'bool',
          'int *', 'int const *', 'std::unique_ptr<int>', 'Tm<int> const &', 'void *', 'Nth const &', 'Thr &&', 'long', 'E4']
DISJ = ['S3', 'E1', 'char const *', 'Un', 'Tm<int>', 'Tm<char> &']
ARGS = ['int', 'int &', 'int const &', 'double', 'S3', 'S3 &', 'S3 const &', 'E4', 'E1', 'std::nullptr_t', 'int *', 'char const *',
        'char const (&)[3]', 'Drv', 'Drv &', 'bool', 'Tm<int>', 'std::unique_ptr<int>', 'ToS3', 'ToS3 const &', 'ToE1', 'ToE1 &', 'ToE1 const', 'int const *', 'long', 'Un',
        'Tm<char> &', 'Tm<char>', 'Thr', 'Nth']
RETS = ['void', 'int', 'S3', 'int &', 'int const &', 'bool', 'S3 &&', 'E1', 'double', 'int *', 'Hold', 'Tm<int>', 'char const *']
NONCLASS = ['int', 'void', 'int *', 'E1', 'double', 'int[3]', 'void()', 'std::nullptr_t', 'int &', 'E4', 'S3 *']


def b(v):
    return 'true' if v else 'false'


def qspell(q):
    return (' const' if q[0] else '') + (' volatile' if q[1] else '') + ('', ' &', ' &&')[q[2]]


class M:
    """one method or function"""

    def __init__(self, r, ps, q=(0, 0, 0), ne=0, static=False, deleted=False):
        self.r, self.ps, self.q, self.ne, self.static, self.deleted = r, ps, q, ne, static, deleted

    def text(self, name):
        return '%s%s %s(%s)%s%s%s;' % ('static ' if self.static else '', self.r, name, ', '.join(self.ps), qspell(self.q),
                                       ' noexcept' if self.ne else '', ' = delete' if self.deleted else '')


def params(c, avg=1, mx=5):
    n = c.length(avg, mx)
    if avg == 1 and c.chance(2):
        n = 6 + c.below(8)
    return [c.pick(PARAMS) for _ in range(n)]


def quals(c):
    if c.chance(35):
        return (0, 0, 0)
    return (c.below(2), c.chance(25) and 1 or 0, c.below(3))


def overloads(c, static):
    """methods such that at most one (or one pair told apart by the object) accepts any argument list"""
    ms = []
    shape = c.weighted([5, 4, 3, 3])
    if shape == 0:
        ms.append(M(c.pick(RETS), params(c), quals(c), c.below(2)))
    elif shape == 1:
        for n in range(1 + c.below(4)):
            if c.chance(70):
                ms.append(M(c.pick(RETS), [c.pick(PARAMS) for _ in range(n)], quals(c), c.below(2)))
    elif shape == 2:
        rest = [c.pick(PARAMS) for _ in range(c.below(2))]
        for p in c.shuffle(DISJ)[:1 + c.below(4)]:
            ms.append(M(c.pick(RETS), [p] + rest, quals(c), c.below(2)))
    else:
        ps = params(c)
        q1, q2 = c.pick([((0, 0, 0), (1, 0, 0)), ((0, 0, 1), (0, 0, 2)), ((1, 0, 1), (0, 0, 2)), ((0, 0, 1), (1, 0, 1)),
                         ((1, 0, 1), (1, 0, 2))])
        ms += [M(c.pick(RETS), ps, q1, c.below(2)), M(c.pick(RETS), list(ps), q2, c.below(2))]
        if static == 1:
            ms.pop()
    for m in ms:
        m.static = static == 1 or (static == 2 and shape in (0, 1, 2) and c.chance(50))
        if m.static:
            m.q = (0, 0, 0)
        m.deleted = c.chance(6)
    if not ms:
        ms.append(M('int', [], (0, 0, 0), 0, static == 1))
    return ms


def obj_ok(m, o):
    """may a method with these qualifiers be called on an object expression (const, volatile, rvalue)"""
    if m.q[0] < o[0] or m.q[1] < o[1]:
        return False
    if m.q[2] == 2:
        return o[2]
    if m.q[2] == 1 and o[2]:
        return m.q[0] and not m.q[1]
    return True


def better(a, m):
    """both viable for the object: is a the better match"""
    if a.q[2] != m.q[2] and a.q[2] == 2:
        return True
    if a.q[2] != m.q[2] and m.q[2] == 2:
        return False
    return a.q[0] + a.q[1] < m.q[0] + m.q[1]


def viable(ms, args, sel):
    """C++ conditions (callable, callable without throwing) of a call with args among ms"""
    cands = [m for m in ms if len(m.ps) == len(args) and sel(m)]
    groups = {}
    for m in cands:
        groups.setdefault(tuple(m.ps), []).append(m)
    allv, yes, ne = ['0'], ['false'], ['false']
    for ps, g in groups.items():
        best = g[0]
        for m in g[1:]:
            if better(m, best):
                best = m
        cond = '(%s)' % ' && '.join(['true'] + ['conv<%s, %s>' % (a, p) for a, p in zip(args, ps)])
        allv.append(cond)
        if best.deleted:
            continue
        yes.append(cond)
        if best.ne:
            ne.append('(%s)' % ' && '.join(['true'] + ['quiet<%s, %s>' % (a, p) for a, p in zip(args, ps)]))
    # an argument accepted by more than one parameter list is ambiguous
    one = '' if len(groups) < 2 else '(%s) == 1 && ' % ' + '.join(allv)
    return '%s(%s)' % (one, ' || '.join(yes)), '%s(%s)' % (one, ' || '.join(ne))


def args_for(c, ms):
    """argument types near some overload"""
    m = c.pick(ms)
    args = []
    for p in m.ps:
        if c.chance(70):
            args.append(p if c.chance(70) else c.pick([p.replace(' &&', '').replace(' &', ''), p.replace(' &&', '').replace(' const', '').replace(' &', '') + ' &']))
        else:
            args.append(c.pick(ARGS))
    if c.chance(15):
        if args and c.chance(50):
            args.pop()
        else:
            args.append(c.pick(ARGS))
    if c.chance(8):
        args = [c.pick(ARGS) for _ in range(c.below(3))]
    return args


def tail(xs):
    return ''.join(', ' + x for x in xs)


# ---- classes

def layout(c, k, decl, name, plain, kind):
    """declares a class G with the member in some place; returns whether the member is visible"""
    f = c.weighted([10, 3, 1, 1, 2, 2, 1, 2, 1])
    acc = c.weighted([8, 1, 1])
    a = ('public', 'protected', 'private')[acc]
    vis = acc == 0
    other = c.pick(['', 'int other;', 'static int other();', 'using other = int;', 'int %s_;' % name, 'int y%s() const;' % name, 'using %s2 = int;' % name])
    if kind == 'sdata_ci' and f == 6:
        f = 0
    if f == 0:
        kw = c.pick(['struct', 'class'])
        if c.chance(30):          # without an access specifier
            k.decl('%s G { %s %s };' % (kw, decl, other))
            vis = kw == 'struct'
        else:
            k.decl('%s G { %s: %s public: %s };' % (kw, a, decl, other))
    elif f == 1:
        k.decl('struct B0 { %s: %s }; struct G : B0 { %s };' % (a, decl, other))
    elif f == 2:
        k.decl('struct B0 { public: %s }; class G : %sB0 { public: %s };' % (decl, c.pick(['', 'private ', 'protected ']), other))
        vis = False
    elif f == 3:
        k.decl('struct B0 { public: %s }; struct B2 { Hold %s; }; struct G : B0, B2 {};' % (decl, name))
        vis = False
    elif f == 4:
        k.decl('struct B0 { %s }; struct G : B0 { %s: %s };' % (c.pick(['Hold %s;', 'void %s(Hold);', 'using %s = Hold;', 'static Hold %s();']) % name, a, decl))
    elif f == 5:
        k.decl('template <typename Z0> struct G0 { %s: %s public: Z0 other; }; using G = G0<int>;' % (a, decl))
    elif f == 6:
        k.decl('union G { %s: %s public: int other; };' % (a, decl))
    elif f == 7:
        k.decl('class B0 { protected: %s }; class G : public B0 { %s: using B0::%s; };' % (decl, a, name))
    else:
        k.decl('struct B0 { public: %s }; struct B1 : virtual B0 {}; struct B2 : virtual B0 {}; struct G : B1, B2 {};' % decl)
        vis = None       # through a virtual base
    return f, vis


def member(c, name, want):
    """(kind, declaration, detail) of a member"""
    kinds = ['type', 'data', 'sdata', 'method', 'smethod', 'mixed', 'none', 'enumerator', 'tmpl_type', 'tmpl_method', 'nested', 'default_arg']
    w = [2] * len(kinds)
    for i, x in enumerate(kinds):
        if x in want:
            w[i] = 22
    kind = kinds[c.weighted(w)]
    if kind == 'type':
        t = c.pick(MTYPES)
        return kind, 'using %s = Tid<%s>;' % (name, t), t
    if kind == 'nested':
        return kind, c.pick(['struct %s {};', 'enum class %s {};', 'class %s;']) % name, None
    if kind == 'tmpl_type':
        return kind, c.pick(['template <typename X> using %s = X;', 'template <typename X> struct %s {};']) % name, None
    if kind == 'data':
        return kind, '%sTid<%s> %s;' % (c.pick(['', '', 'mutable ']), c.pick([t for t in DTYPES if 'const' not in t]), name) \
            if c.chance(50) else 'Tid<%s> %s;' % (c.pick(DTYPES), name), None
    if kind == 'sdata':
        f = c.below(4)
        if f == 0:
            return 'sdata_ci', 'static constexpr %s %s;' % (c.pick(['int', 'bool', 'double', 'char const *']), name + ' = 0'), None
        if f == 1:
            return 'sdata_ci', 'static inline %s %s{};' % (c.pick(['int', 'bool', 'double', 'S3', 'S3 const']), name), None
        return 'sdata', 'static Tid<%s> %s;' % (c.pick(DTYPES), name), None
    if kind == 'enumerator':
        return kind, 'enum { %s, other_e };' % name, None
    if kind == 'tmpl_method':
        return kind, '%stemplate <typename X> int %s(X);' % ('', name), None
    if kind == 'default_arg':
        return kind, 'int %s(int = 0) %s;' % (name, 'noexcept' if c.chance(50) else ''), None
    if kind in ('method', 'smethod', 'mixed'):
        ms = overloads(c, dict(method=0, smethod=1, mixed=2)[kind])
        d = ' '.join(m.text(name) for m in ms)
        if kind == 'method' and len(ms) == 1 and not ms[0].deleted and c.chance(10):
            d = 'virtual ' + d[:-1] + c.pick([';', ' = 0;'])
            return 'virtual', d, ms
        return kind, d, ms
    return 'none', '', None


def gen_class(c, want, macros, queries):
    k = Case()
    name = c.pick(NAMES)
    if c.chance(6):
        t = c.pick(NONCLASS)
        for m in macros:
            k.decl('%s(%s)' % (m, name))
        k.decl('using G = %s;' % t)
        kind, vis, det, lay = 'nonclass', False, None, -1
        k.trace = t
    else:
        kind, d, det = member(c, name, want)
        lay, vis = layout(c, Lay(k, kind), d, name, None, kind) if kind != 'none' else (-1, False)
        if kind == 'none':
            k.decl(c.pick(['struct G {};', 'struct G { int other; };', 'struct G { int %s_; };' % name, 'union G {};', 'class G { int n%s(); };' % name,
                           'struct G { using type = int; };', 'struct Inc0; using G = Tm<int>;']))
        if kind == 'virtual':
            kind = 'method'
        for m in macros:
            k.decl('%s(%s)' % (m, name))
        k.trace = ' '.join(k.decls[:1])
    queries(c, k, name, kind, vis, det, lay)
    k.label(kind)
    k.nontrivial = kind != 'nonclass'
    return k


class Lay:
    """keeps virtual members out of unions"""

    def __init__(self, k, kind):
        self.k, self.kind = k, kind

    def decl(self, s):
        if self.kind == 'virtual' and s.startswith('union'):
            s = s.replace('virtual ', '').replace(' = 0;', ';')
        self.k.decl(s)


CVREF = ['', '', '', ' const', ' volatile', ' const volatile']


def both(k, trait, args, want, what):
    a = ', '.join(args)
    k.check('%s_v<%s> == (%s) && %s<%s>::value == (%s)' % (trait, a, want, trait, a, want), '%s<%s>' % (trait, a) if what is None else what)


def q_type(c, k, name, kind, vis, det, lay):
    vis = vis is None or vis
    for cv in ['', c.pick(CVREF + [' &', ' *'])]:
        g = 'G' + cv
        if cv in (' &', ' *') and kind == 'nonclass':
            continue
        if kind == 'nonclass' and cv:
            continue
        has = vis and kind in ('type', 'nested') and cv not in (' &', ' *')
        both(k, 'has_type_' + name, [g], b(has), None)
        if kind == 'nested':
            x = c.pick(['int', 'Hold', 'S3'])
            both(k, 'has_exact_type_' + name, [g, x], 'false', None)
            continue
        for _ in range(2):
            x = det if kind == 'type' and c.chance(50) else c.pick(MTYPES)
            both(k, 'has_exact_type_' + name, [g, x], b(has and x == det), None)
            x = det if kind == 'type' and c.chance(25) else c.pick(TOS)
            if det == 'Inc' or x == 'Inc':
                continue
            both(k, 'has_convertible_type_' + name, [g, x], 'std::is_convertible_v<%s, %s>' % (det, x) if has else 'false', None)


def q_data(c, k, name, kind, vis, det, lay):
    for cv in ['', c.pick(CVREF + [' &', ' *'])]:
        if kind == 'nonclass' and cv:
            continue
        on = (vis is None or vis) and cv not in (' &', ' *')
        both(k, 'has_data_' + name, ['G' + cv], b(on and kind == 'data'), None)
        both(k, 'has_static_data_' + name, ['G' + cv], b(on and kind in ('sdata', 'sdata_ci')), None)


def q_method(c, k, name, kind, vis, det, lay):
    on = vis is None or vis
    if 'data' in kind and '(*)' in k.decls[0]:
        return                    # data that can be called is outside the property
    for _ in range(4):
        cv = c.pick(CVREF)
        ref = c.pick(['', '', ' &', ' &', ' &&'])
        g = 'G' + cv + ref
        if kind == 'nonclass':
            g = 'G'
        o = (1 if 'const' in cv else 0, 1 if 'volatile' in cv else 0, ref != ' &')
        if not on or kind not in ('method', 'smethod', 'mixed', 'tmpl_method', 'default_arg'):
            if kind in ('data', 'sdata', 'sdata_ci', 'nonclass', 'none', 'enumerator', 'type', 'nested', 'tmpl_type') or not on:
                args = [c.pick(ARGS) for _ in range(c.below(3))]
                both(k, 'has_invocable_' + name, [g] + args, 'false', None)
                both(k, 'has_invocable_%s_noexcept' % name, [g] + args, 'false', None)
            continue
        if kind == 'tmpl_method':
            continue
        if kind == 'default_arg':
            continue
        args = args_for(c, det)
        if any(m.static and len(m.ps) == len(args) for m in det):
            continue
        y, n = viable(det, args, lambda m: obj_ok(m, o))
        both(k, 'has_invocable_' + name, [g] + args, y, None)
        both(k, 'has_invocable_%s_noexcept' % name, [g] + args, n, None)
    if on and kind == 'default_arg':
        ne = 'noexcept' in ' '.join(k.decls[:1])
        for args, w in ([], 1), (['int'], 1), (['S3'], 0), (['int', 'int'], 0), (['double &'], 1):
            both(k, 'has_invocable_' + name, ['G &'] + args, b(w), None)
            both(k, 'has_invocable_%s_noexcept' % name, ['G &'] + args, b(w and ne), None)
    if on and kind == 'tmpl_method':
        for args, w in ([], 0), (['int'], 1), (['S3 &'], 1), (['int', 'int'], 0), (['std::unique_ptr<int> const &'], 1):
            both(k, 'has_invocable_' + name, ['G'] + args, b(w), None) if 'unique' not in str(args) else None
            both(k, 'has_invocable_%s_noexcept' % name, ['G'] + args, 'false', None)


def adj(p):
    return p


def near(c, ms):
    """(r, params, quals, noexcept) near some method"""
    m = c.pick(ms)
    r, ps, q, ne = m.r, list(m.ps), m.q, m.ne
    f = c.below(10)
    if f == 5:
        r = c.pick(RETS)
    elif f == 6:
        if ps and c.chance(70):
            i = c.below(len(ps))
            ps[i] = c.pick(PARAMS)
        else:
            ps.append(c.pick(PARAMS))
    elif f == 7:
        q = quals(c)
    elif f == 8:
        ne = 1 - ne
    elif f == 9:
        if ps and c.chance(50):
            ps.pop()
        elif len(ps) > 1:
            ps = ps[::-1]
        else:
            ne = 1 - ne
    return r, ps, q, ne


def suffix(q, ne):
    return ('_const' if q[0] else '') + ('_volatile' if q[1] else '') + ('', '_ref', '_rref')[q[2]] + ('_noexcept' if ne else '')


def q_rmethod(c, k, name, kind, vis, det, lay):
    on = vis is True
    for _ in range(5):
        if kind in ('method', 'smethod', 'mixed'):
            r, ps, q, ne = near(c, det)
        else:
            r, ps, q, ne = c.pick(RETS), params(c), quals(c), c.below(2)
            if kind == 'tmpl_method':
                r, ps, q = (c.pick(['int', 'int', 'int', 'void']), [c.pick(PARAMS) for _ in range(c.pick([1, 1, 1, 0, 2]))],
                            c.pick([(0, 0, 0), (0, 0, 0), (1, 0, 0)]))
            if kind == 'default_arg':
                r, ps, q = 'int', c.pick([[], ['int'], ['int', 'int']]), c.pick([(0, 0, 0), (0, 0, 0), (1, 0, 0)])
        if vis is False and det and kind != 'type' and len(det) > 1:
            continue              # (clang 18 does not check the access of an overloaded member whose address is taken)
        if vis is None:
            continue              # pointers to members of a virtual base do not convert
        if lay in (1, 7) and (kind == 'tmpl_method' or (det and kind != 'type' and len(det) > 1)):
            continue              # nor does the address of an overloaded member of a base
        if kind in ('method', 'smethod', 'mixed'):
            want = on and any(not m.static and not m.deleted and m.r == r and m.ps == ps and m.q == q and m.ne >= ne for m in det)
        elif kind == 'tmpl_method':
            want = on and r == 'int' and len(ps) == 1 and q == (0, 0, 0) and not ne
        elif kind == 'default_arg':
            want = on and ps == ['int'] and q == (0, 0, 0) and ('noexcept' in ' '.join(k.decls[:1]) or not ne)
        else:
            want = False
        both(k, 'has_invocable_r_%s%s' % (name, suffix(q, ne)), [r, 'G'] + ps, b(want), None)
        k.label('exact pointer found', want)


def q_smethod(c, k, name, kind, vis, det, lay):
    on = vis is None or vis
    for _ in range(4):
        if kind in ('method', 'smethod', 'mixed'):
            args = args_for(c, det)
            sts = [m for m in det if len(m.ps) == len(args)]
            # a mixed set is asked only where the argument count settles which kind of overload is chosen
            if on and any(m.static for m in sts) and not all(m.static for m in sts):
                pass
            elif not on or not any(m.static for m in sts):
                both(k, 'has_static_invocable_' + name, ['G'] + args, 'false', None)
                both(k, 'has_static_invocable_%s_noexcept' % name, ['G'] + args, 'false', None)
            else:
                y, n = viable(det, args, lambda m: True)
                both(k, 'has_static_invocable_' + name, ['G'] + args, y, None)
                both(k, 'has_static_invocable_%s_noexcept' % name, ['G'] + args, n, None)
            r, ps, q, ne = near(c, det)
            want = on and any(m.static and not m.deleted and m.r == r and m.ps == ps and m.ne >= ne for m in det)
            if not on and len(det) > 1:
                continue          # (clang 18 does not check the access of an overloaded member whose address is taken)
        else:
            args = [c.pick(ARGS) for _ in range(c.below(3))]
            if kind not in ('sdata', 'data') or '(*)' not in k.decls[0]:
                both(k, 'has_static_invocable_' + name, ['G'] + args, 'false', None)
                both(k, 'has_static_invocable_%s_noexcept' % name, ['G'] + args, 'false', None)
            r, ps, q, ne = c.pick(RETS), params(c), quals(c), c.below(2)
            want = False
            if kind == 'sdata':
                continue
        both(k, 'has_static_invocable_r_%s%s' % (name, '_noexcept' if ne else ''), [r, 'G'] + ps, b(want), None)
        k.label('exact static pointer found', want)


def gen_type(c):
    return gen_class(c, ('type',), ['CREATE_MEMBER_TYPE_CHECKERS'], q_type)


def gen_data(c):
    return gen_class(c, ('data', 'sdata'), ['CREATE_MEMBER_DATA_CHECKERS', 'CREATE_STATIC_MEMBER_DATA_CHECKERS'], q_data)


def gen_method(c):
    return gen_class(c, ('method',), ['CREATE_METHOD_CHECKERS'], q_method)


def gen_rmethod(c):
    return gen_class(c, ('method', 'mixed'), ['CREATE_R_METHOD_CHECKERS'], q_rmethod)


def gen_smethod(c):
    return gen_class(c, ('smethod', 'mixed'), ['CREATE_STATIC_METHOD_CHECKERS'], q_smethod)


# ---- free functions

def gen_free(c):
    k = Case()
    # (g++ 13 confuses noexcept(f(...)) of templates in different namespaces when f is declared in only some
    # of them, so each case of a translation unit has its own name)
    name = c.pick(['ff', 'do_it', 'x2', 'Fn', 'use']) + '@N@'
    ms = overloads(c, 0)
    if len(ms) == 2 and ms[0].ps == ms[1].ps:
        ms.pop()
    for m in ms:
        m.q = (0, 0, 0)
    adl = c.chance(35)
    loc = []
    if adl:
        # found only through an argument of class type declared elsewhere
        k.decl('namespace far { struct K {}; struct L { friend int %s(L const &, int) noexcept; }; %s %s(K%s)%s; }' % (
            name, ms[0].r, name, tail(ms[0].ps), ' noexcept' if ms[0].ne else ''))
    else:
        for m in ms:
            k.decl(m.text(name))
        loc = ms
    k.decl('CREATE_FREE_FUNCTION_CHECKERS(%s)' % name)
    if not adl and c.chance(20):
        # a function declared afterwards, which arguments of other namespaces do not find
        k.decl('long %s(int, int, int, int, int, int, int);' % name)
        k.check('!is_%s_invocable_v<int, int, int, int, int, int, int>' % name, 'a function declared after the checkers')
    for _ in range(4):
        if adl:
            args = args_for(c, ms[:1])
            y, n = viable(ms[:1], args, lambda m: True)
            if ms[0].deleted:
                ms[0].deleted = False
                y, n = viable(ms[:1], args, lambda m: True)
            full = ['far::K' + c.pick(['', ' &', ' const &'])] + args
            rr = ms[0].r
        else:
            args = full = args_for(c, ms)
            if not args:
                full = []
            y, n = viable(ms, args, lambda m: True)
            rr = None
        both(k, 'is_%s_invocable' % name, full, y, None)
        both(k, 'is_%s_noexcept_invocable' % name, full, n, None)
        # the exact return type of the overload with these parameters
        m = c.pick(ms[:1] if adl else ms)
        if m.deleted:
            continue
        r = m.r if c.chance(60) else c.pick(RETS)
        a = [('far::K')] * adl + [p if p.endswith('&') else p for p in m.ps]
        y, n = viable([m], m.ps, lambda m: True)
        if r != m.r:
            y = n = 'false'
        both(k, 'is_%s_invocable_r' % name, [r] + a, y, None)
        both(k, 'is_%s_noexcept_invocable_r' % name, [r] + a, n, None)
    if adl:
        both(k, 'is_%s_invocable' % name, ['far::L', 'int'], 'true', 'a hidden friend')
        both(k, 'is_%s_noexcept_invocable_r' % name, ['int', 'far::L &', 'int'], 'true', 'a hidden friend')
        both(k, 'is_%s_invocable' % name, ['Hold', 'int'], 'false', 'no function for the class')
    k.trace = ' '.join(m.text(name[:-3]) for m in ms) + (' by argument-dependent lookup' if adl else '')
    k.label('found by arguments' if adl else 'declared before')
    k.nontrivial = True
    return k


# ---- detection utilities
# operation, and its result for argument types (None: not detected)
OPS = [
    ('template <typename T> using op = typename T::type;', [(['std::is_same<int, int>'], 'std::true_type'), (['TidS<int &>'], 'int &'), (['int'], None),
                                                            (['TidS<void>'], 'void'), (['S3'], None), (['TidS<int const>'], 'int const')]),
    ('template <typename T> using op = decltype(std::declval<T>() + 1);', [(['int'], 'int'), (['char &'], 'int'), (['int *'], 'int *'), (['S3'], None),
                                                                           (['double'], 'double'), (['void'], None), (['E1'], None), (['E4'], 'int')]),
    ('template <typename T, typename U> using op = decltype(std::declval<T &>() = std::declval<U>());',
     [(['int', 'int'], 'int &'), (['int const', 'int'], None), (['S3', 'Drv'], 'S3 &'), (['S3', 'int'], None), (['E1', 'int'], None),
      (['std::unique_ptr<int>', 'std::unique_ptr<int>'], 'std::unique_ptr<int> &'), (['std::unique_ptr<int>', 'std::unique_ptr<int> &'], None)]),
    ('template <typename... T> using op = std::common_type_t<T...>;', [(['int', 'char'], 'int'), (['int', 'double', 'char'], 'double'), ([], None),
                                                                       (['int', 'S3'], None), (['void'], 'void')]),
    ('template <typename T> using op = T &;', [(['int'], 'int &'), (['void'], None), (['int &&'], 'int &'), (['int()'], 'int (&)()'), (['int() const'], None)]),
    ('template <typename T> using op = void;', [(['int'], 'void'), (['S3'], 'void')]),
    ('template <typename T> using op = std::enable_if_t<(sizeof(T) > 2), T>;', [(['int'], 'int'), (['char'], None), (['S3'], 'S3'), (['bool'], None)]),
    ('template <typename T> using op = decltype(&T::operator());', [(['S3'], None), (['int'], None)]),
    ('template <typename T, typename... A> using op = decltype(T(std::declval<A>()...));',
     [(['S3'], 'S3'), (['Nth', 'int'], 'Nth'), (['Nth'], None), (['Exq', 'int'], 'Exq'), (['int', 'S3'], None), (['Vi'], 'Vi')]),
]


def gen_detect(c):
    k = Case()
    d, table = c.pick(OPS)
    args, res = c.pick(table)
    k.decl(d)
    ts = ['op'] + args
    j = ', '.join(ts)
    k.check('utils::is_detected_v<%s> == %s && utils::is_detected<%s>::value == %s' % (j, b(res is not None), j, b(res is not None)), 'is_detected<%s>' % j)
    k.check('std::is_same_v<utils::detected_t<%s>, %s>' % (j, res or 'utils::nonesuch'), 'detected_t<%s>' % j)
    for _ in range(2):
        x = c.pick(MTYPES + ['utils::nonesuch'])
        k.check('std::is_same_v<utils::detected_or_t<%s, %s>, %s>' % (x, j, res or x), 'detected_or_t<%s, %s>' % (x, j))
        k.check('std::is_same_v<typename utils::detected_or<%s, %s>::type, %s>' % (x, j, res or x), 'detected_or<%s, %s>' % (x, j))
        k.check('utils::detected_or<%s, %s>::value_t::value == %s' % (x, j, b(res is not None)), 'detected_or<%s, %s>::value_t' % (x, j))
        e = res if res and c.chance(40) else c.pick(MTYPES)
        k.check('utils::is_detected_exact_v<%s, %s> == %s && utils::is_detected_exact<%s, %s>::value == %s' %
                (e, j, b(e == res), e, j, b(e == res)), 'is_detected_exact<%s, %s>' % (e, j))
        e = res if res and c.chance(20) else c.pick([t for t in TOS if t != 'Inc'])
        w = 'std::is_convertible_v<%s, %s>' % (res, e) if res else 'false'
        k.check('utils::is_detected_convertible_v<%s, %s> == %s && utils::is_detected_convertible<%s, %s>::value == %s' %
                (e, j, w, e, j, w), 'is_detected_convertible<%s, %s>' % (e, j))
    k.check('!std::is_destructible_v<utils::nonesuch> && !std::is_copy_constructible_v<utils::nonesuch> && '
            '!std::is_assignable_v<utils::nonesuch &, utils::nonesuch const &>', 'no object of nonesuch can exist')
    k.trace = d + ' with ' + ', '.join(args)
    k.label('detected' if res else 'not detected')
    k.nontrivial = True
    return k


R = 'a generated class under the checkers for one member name; non-trivial: a class type (not a scalar)'
TARGETS = [Target('type_checkers', R, 4000, 80000, gen_type, batch=100, preamble=PRE),
           Target('data_checkers', R, 4000, 80000, gen_data, batch=100, preamble=PRE),
           Target('method_checkers', R, 4000, 80000, gen_method, batch=100, preamble=PRE),
           Target('exact_method_checkers', R, 2000, 40000, gen_rmethod, batch=50, preamble=PRE),
           Target('static_method_checkers', R, 4000, 80000, gen_smethod, batch=100, preamble=PRE),
           Target('free_function_checkers', 'a generated set of free functions under the checkers for their name', 4000, 80000, gen_free,
                  batch=100, preamble=PRE),
           Target('detection', 'one operation on argument types under all detection utilities', 1200, 4000, gen_detect, batch=75, preamble=PRE)]
TARGETS += [Target(t.name + '_clang', t.rule, t.quick // 8, t.thorough // 8, t.gen, batch=60, preamble=PRE, cxx='clang++') for t in TARGETS]
