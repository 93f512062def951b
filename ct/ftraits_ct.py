"""T04: function signature traits on generated signatures, functors and member pointers."""
from ctlib import Case, Target
from universe import DECLS

PRE = '''#include <utils/function_traits.h>
#include <array>
#include <cstddef>
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
''' + DECLS + '''
struct Hold { };
'''
# spelling as written -> type of the parameter after the adjustments of the language
PARAMS = [(t, t) for t in (
    'int', 'bool', 'char', 'double', 'unsigned long', 'long double', 'int &', 'int const &', 'int &&', 'int const &&',
    'int volatile &', 'S3', 'S3 &', 'S3 const &', 'S3 &&', 'S12 const volatile &', 'E1', 'E4', 'int *', 'int const *',
    'void *', 'char const *', 'Inc *', 'Inc &', 'Tm<int>', 'Tm<char> const &', 'int (*)(char)', 'int (&)(char)',
    'int (*)(char) noexcept', 'int (&)[3]', 'int (&&)[2]', 'int S3::*', 'int (S3::*)(char) const', 'std::nullptr_t',
    'std::unique_ptr<int>', 'std::unique_ptr<int> &&', 'std::tuple<int, char &>', 'Vi &', 'Em', 'A32', 'Un',
    'std::function<void(int)> const &', 'int **', 'int *&', 'std::array<S3, 2>')] + [
    ('int const', 'int'), ('S3 const', 'S3'), ('int volatile', 'int'), ('int *const', 'int *'), ('int[]', 'int *'),
    ('int[4]', 'int *'), ('char const[2]', 'char const *'), ('int(char)', 'int (*)(char)'), ('E1 const', 'E1')]
RETS = ['void', 'void', 'int', 'bool', 'S3', 'int &', 'int const &', 'int &&', 'int *', 'int const *', 'S3 const', 'S3 &',
        'S3 &&', 'E1', 'E4', 'Tm<int>', 'double', 'std::unique_ptr<int>', 'void *', 'std::tuple<int, char &>', 'Inc', 'Inc &',
        'void const', 'Em const', 'int volatile &', 'std::function<void(int)>']
ALIAS = ['int (*)(char)', 'int (&)(char)', 'int (&)[3]', 'int S3::*', 'int (S3::*)(char) const']   # need an alias as return types
NS = 'utils::function_traits::'


def b(v):
    return 'true' if v else 'false'


class Sig:
    def __init__(self, c, k, name='f'):
        self.r = c.pick(RETS)
        if c.chance(12):
            a = c.pick(ALIAS)
            self.r = 'Ret_' + name
            k.decl('using %s = Tid<%s>;' % (self.r, a))
        n = c.length(2, 9)
        if c.chance(2):
            n = 12 + c.below(20)
        self.ps = [c.pick(PARAMS) for _ in range(n)]
        self.q = quals(c)

    def text(self, q=None, named=''):
        return '%s%s(%s)%s' % (self.r, named, ', '.join(p for p, _ in self.ps), spell(self.q if q is None else q))

    def plist(self):
        return 'utils::type_list<%s>' % ', '.join(t for _, t in self.ps)


def quals(c):
    return (c.below(2), c.below(2), c.below(3), c.below(2))


def spell(q):
    return (' const' if q[0] else '') + (' volatile' if q[1] else '') + ('', ' &', ' &&')[q[2]] + (' noexcept' if q[3] else '')


PRE += '''
template <typename T> struct TidS { using type = T; };
template <typename T> using Tid = typename TidS<T>::type;
'''


def same(k, a, w, what):
    k.check('std::is_same_v<%s, %s>' % (a, w), what)


def check_sig(k, s, f):
    """f names a function type which must be the signature s"""
    q = s.q
    for n, on in (('const', q[0]), ('volatile', q[1]), ('lvalue_reference', q[2] == 1), ('rvalue_reference', q[2] == 2),
                  ('noexcept', q[3])):
        k.check('%shas_%s_qualifier_v<%s> == %s && %shas_%s_qualifier<%s>::value == %s' % (NS, n, f, b(on), NS, n, f, b(on)),
                'has_%s_qualifier of %s' % (n, s.text()))
    for n, i in (('const', 0), ('volatile', 1), ('reference', 2), ('noexcept', 3)):
        w = list(q)
        w[i] = 0
        same(k, 'typename %sremove_%s_qualifier<%s>::type' % (NS, n, f), s.text(w), 'remove_%s_qualifier of %s' % (n, s.text()))
    same(k, '%sremove_all_qualifiers_t<%s>' % (NS, f), s.text((0, 0, 0, 0)), 'remove_all_qualifiers of ' + s.text())
    same(k, 'typename %sremove_all_qualifiers<%s>::type' % (NS, f), s.text((0, 0, 0, 0)), 'remove_all_qualifiers of ' + s.text())
    same(k, '%sreturn_type_t<%s>' % (NS, f), s.r, 'return_type of ' + s.text())
    same(k, '%sparams_list_t<%s>' % (NS, f), s.plist(), 'params_list of ' + s.text())


def gen(c):
    k = Case()
    f = c.weighted([6, 6, 4, 3, 3, 5])
    if f == 0:
        s = Sig(c, k)
        k.decl('using F = %s;' % s.text())
        check_sig(k, s, 'F')
        same(k, NS + 'signature_t<F>', 'F', 'signature of ' + s.text())
        k.check('%sis_invocable_v<F> && %sis_invocable<F>::value' % (NS, NS), 'a function type is callable: ' + s.text())
        k.check('!%sis_simple_functor_v<F>' % NS, 'a function type is no functor: ' + s.text())
        # removing one kind after another, in any order
        cur, w = 'F', list(s.q)
        for i in c.shuffle(range(4))[:1 + c.below(4)]:
            cur = 'typename %sremove_%s_qualifier<%s>::type' % (NS, ('const', 'volatile', 'reference', 'noexcept')[i], cur)
            w[i] = 0
        same(k, cur, s.text(w), 'removing qualifiers one after another from ' + s.text())
        k.trace = s.text()
        k.label('function type' + spell(s.q))
        k.nontrivial = s.q != (0, 0, 0, 0) or bool(s.ps)
    elif f == 1:
        s = Sig(c, k)
        shape = c.below(8)
        op = s.text(named=' operator()') + ';'
        key = c.pick(['struct', 'class', 'union']) if shape == 0 else 'struct'
        body = 'public: ' if key == 'class' else ''
        if shape in (0, 6, 7):
            k.decl('%s G { %s%s %s };' % (key, body, c.pick(['', 'int x;', 'int x() const;', 'using t = int;']), op))
        elif shape == 1:
            k.decl('struct B0 { %s }; struct G : B0 { int x; };' % op)
        elif shape == 2:
            k.decl('struct B0 { int operator()(Hold); }; struct G : B0 { %s };' % op)     # hides the one of the base
        elif shape == 3:
            k.decl('struct B0 { %s }; class G : B0 { public: using B0::operator(); };' % op)
        elif shape == 4:
            v = '%s final' if c.chance(30) else '%s'
            k.decl('struct G %s{ virtual %s virtual ~G(); };' % ('final ' if c.chance(30) else '', op[:-1] + c.pick(['', ' = 0']) + ';'))
        elif shape == 5:
            k.decl('template <typename X> struct G0 { %s }; using G = G0<int>;' % op)
        cv = c.pick(['', '', '', ' const', ' volatile'])
        k.decl('using Q = G%s;' % cv)
        same(k, NS + 'functor_signature_t<Q>', s.text(), 'functor_signature of a functor with ' + s.text())
        same(k, 'typename %sfunctor_signature<Q>::type' % NS, s.text(), 'functor_signature of a functor with ' + s.text())
        same(k, NS + 'signature_t<Q>', s.text(), 'signature of a functor with ' + s.text())
        same(k, NS + 'member_signature_t<decltype(&Q::operator())>', s.text(), 'member_signature of operator() ' + s.text())
        k.check('%sis_simple_functor_v<Q> && %sis_simple_functor<Q>::value && %sis_invocable_v<Q>' % (NS, NS, NS), 'callable: ' + s.text())
        k.decl('using F = %ssignature_t<Q>;' % NS)
        check_sig(k, s, 'F')
        k.trace = 'functor %d%s: %s' % (shape, cv, s.text())
        k.label('functor shape %d' % shape)
        k.nontrivial = True
    elif f == 2:
        s = Sig(c, k)
        owner = c.pick(['S3', 'Inc', 'Un', 'Tm<int>', 'Vi', 'Hold'])
        # (g++ 13 loses a reference qualifier of `F S3::*`, so the pointer type is spelled out)
        k.decl('using F = %s; using P = %s;' % (s.text(), s.text(named=' (%s::*)' % owner)))
        same(k, NS + 'member_signature_t<P>', 'F', 'member_signature of a pointer to %s member of %s' % (s.text(), owner))
        same(k, 'typename %smember_signature<P>::type' % NS, s.text(), 'member_signature of a pointer to ' + s.text())
        cv = c.pick(['', '', 'const', 'volatile', 'const volatile'])
        k.check('%sis_invocable_v<P %s> && %sis_invocable<P %s>::value && !%sis_simple_functor_v<P>' % (NS, cv, NS, cv, NS),
                'a member function pointer %s is callable' % cv)
        check_sig(k, s, NS + 'member_signature_t<P>')
        if c.chance(50):
            k.decl('struct M { %s };' % (s.text(named=' m') + ';'))
            same(k, NS + 'member_signature_t<decltype(&M::m)>', s.text(), 'member_signature of ' + s.text())
        k.trace = 'member of %s: %s' % (owner, s.text())
        k.label('member function')
        k.nontrivial = True
    elif f == 3:
        t = c.pick(['int', 'S3', 'int const', 'int *', 'int volatile', 'Tm<int>', 'int[3]', 'std::function<void()>', 'Hold', 'Un', 'E1'])
        owner = c.pick(['S3', 'Inc', 'Un', 'Tm<int>'])
        k.decl('using D = %s; using P = D %s::*;' % (t, owner))
        same(k, NS + 'member_signature_t<P>', 'D', 'member_signature of a data member pointer to ' + t)
        k.check('!%sis_invocable_v<P> && !%sis_simple_functor_v<P>' % (NS, NS), 'a data member pointer is not callable: ' + t)
        k.trace = 'data member %s of %s' % (t, owner)
        k.label('data member')
        k.nontrivial = True
    elif f == 4:
        s = Sig(c, k)
        mut, ne, cap = c.below(2), c.below(2), c.pick(['', '=', '&', 'x = 1'])
        s.q = (1 - mut, 0, 0, ne)
        if s.r in ('Inc', 'void const', 'S3 const', 'Em const'):
            s.r = 'S3'
        ps = [p for p, _ in s.ps]
        k.decl('inline auto make() { return [%s](%s)%s%s -> %s { throw 1; }; } using L = decltype(make());' % (
            cap, ', '.join(ps), ' mutable' if mut else '', ' noexcept' if ne else '', s.r))
        same(k, NS + 'signature_t<L>', s.text(), 'signature of a lambda ' + s.text())
        same(k, NS + 'functor_signature_t<L const>', s.text(), 'functor_signature of a const lambda ' + s.text())
        k.check('%sis_invocable_v<L> && %sis_simple_functor_v<L>' % (NS, NS), 'a lambda is callable')
        k.decl('using F = %ssignature_t<L>;' % NS)
        check_sig(k, s, 'F')
        k.trace = 'lambda ' + s.text()
        k.label('lambda')
        k.nontrivial = True
    else:
        s = Sig(c, k)
        g = c.below(21)
        yes = False
        if g == 0:
            s.q = (0, 0, 0, c.below(2))
            cv = c.pick(['', '', 'const', 'volatile', 'const volatile'])
            tgt = s.text() if c.chance(75) else 'int(int, ...)' + c.pick(['', ' noexcept'])
            k.decl('using T = std::add_pointer_t<%s> %s;' % (tgt, cv))
            yes, w = True, 'a function pointer %s to %s' % (cv, tgt)
        elif g == 1:
            k.decl('struct T { %s; int operator()(Hold); };' % s.text(named=' operator()'))
            w = 'an overloaded call operator'
        elif g == 2:
            k.decl('struct T { template <typename X> int operator()(X); };')
            w = 'a templated call operator'
        elif g == 3:
            k.decl('class T { %s; };' % s.text(named=' operator()'))
            w = 'a private call operator'
        elif g == 4:
            k.decl('class T { protected: %s; };' % s.text(named=' operator()'))
            w = 'a protected call operator'
        elif g == 5:
            k.decl('struct B1 { %s; }; struct B2 { int operator()(Hold); }; struct T : B1, B2 {};' % s.text(named=' operator()'))
            w = 'an ambiguous call operator'
        elif g == 6:
            k.decl('struct B1 { %s; }; struct B2 { int operator()(Hold); }; struct T : B1, B2 { using B1::operator(); using B2::operator(); };' %
                   s.text(named=' operator()'))
            w = 'two call operators by using declarations'
        elif g == 7:
            k.decl('struct B1 { %s; }; class T : B1 {};' % s.text(named=' operator()'))
            w = 'a call operator of a private base'
        elif g == 8:
            k.decl('struct T0 { %s; }; using T = T0 %s;' % (s.text(named=' operator()'), c.pick(['*', 'const *', '**', '[2]'])))
            w = 'a pointer to or array of functors'
        elif g == 9:
            k.decl('struct T { %s; };' % s.text(named=c.pick([' call', ' operator[]', ' invoke']) if len(s.ps) == 1 else ' call'))
            w = 'no call operator'
        elif g == 10:
            k.decl('inline auto make() { return [](auto x) { return x; }; } using T = decltype(make());')
            w = 'a generic lambda'
        elif g in (11, 12, 13):
            t = c.pick(['int', 'void', 'bool', 'double', 'E1', 'E4', 'S3', 'Em', 'Un', 'int *', 'void *', 'int[3]', 'int[]', 'std::nullptr_t',
                        'Tm<int>', 'void const', 'int const', 'utils::type_list<int>', 'std::unique_ptr<int>', 'int **', 'Vi'])
            k.decl('using T = %s;' % t)
            w = t
        elif g == 14:
            k.decl('using T0 = std::add_pointer_t<%s%s>; using T = T0 *;' % (s.r, '()'))
            w = 'a pointer to a function pointer'
        elif g == 15:
            k.decl('using Fp = int (*)(int); struct T { operator Fp() const; };')
            w = 'a class converting to a function pointer'
        elif g == 16:
            k.decl('using T = std::function<%s>;' % 'int(int)')
            k.check('std::is_same_v<%ssignature_t<T>, int(int) const>' % NS, 'the signature of std::function')
            yes, w = True, 'std::function'
        elif g == 17:
            k.decl('using T = int(int, ...)%s;' % c.pick(['', ' const', ' noexcept', ' &']))
            yes, w = True, 'a function type with an ellipsis'
        elif g == 20:
            k.decl('struct T0 { %s; };' % s.text(named=' operator()'))
            k.decl('using T = %s %s;' % (c.pick(['T0', 'const T0', 'int (*)(int)', 'decltype(&T0::operator())', 'std::add_pointer_t<void()> const']), c.pick(['&', '&&'])
                   ) if c.chance(70) else 'using T = int (%s)(char);' % c.pick(['&', '&&', '*&']))
            k.decls[-1] = k.decls[-1].replace('int (*)(int) &&', 'int (*&&)(int)').replace('int (*)(int) &', 'int (*&)(int)')
            w = 'a reference'
        elif g == 18:
            k.decl('struct T { template <typename X> int operator()(X); %s; };' % s.text(named=' operator()'))
            w = 'a templated and a plain call operator'
        else:
            k.decl('struct B0 { %s; }; struct T : B0 { private: using B0::operator(); };' % s.text(named=' operator()'))
            w = 'a call operator made private'
        k.check('%sis_invocable_v<T> == %s && %sis_invocable<T>::value == %s' % (NS, b(yes), NS, b(yes)), 'is_invocable of ' + w)
        k.check('%sis_simple_functor_v<T> == %s' % (NS, b(g == 16)), 'is_simple_functor of ' + w)
        k.trace = 'callability of %s (%s)' % (w, s.text())
        k.label('a function pointer' if g == 0 else w if g not in (11, 12, 13) else 'not a function')
        k.nontrivial = True
    return k


RULE = 'a generated signature, functor, lambda or member pointer under every trait; non-trivial: has qualifiers, parameters or a class'
TARGETS = [Target('signatures', RULE, 24000, 200000, gen, batch=100, preamble=PRE),
           Target('signatures_clang', RULE, 1200, 25000, gen, batch=75, preamble=PRE, cxx='clang++')]
