"""T06: padding detection on generated aggregates, against the sum of the sizes of their scalar members."""
from ctlib import Case, Target

PRE = '''#include <utils/padding_checker.h>
#include <cstddef>
#include <cstdint>
#include <string>
#include <memory>
#include <type_traits>
enum E4 { e4a, e4b = 100 };
enum class E1 : unsigned char {};
enum class E2 : short {};
enum class E8 : long { x };
struct Inc;
struct Em {};
class Ec {};
struct alignas(8) Ea {};
struct alignas(256) Eb {};
struct alignas(512) Ec2 {};
struct Nt1 { Nt1(Nt1 const &); Nt1(); char c; };
struct Nt2 { ~Nt2(); char c; };
struct Nt3 { virtual void f(); };
struct Nt4 { Nt4 &operator=(Nt4 const &); char c; };
struct Nt5 { std::unique_ptr<int> p; };
struct Nt6 { std::string s; int i; };
'''
# (spelling, size, bytes always determine the value)
SC = [('char', 1, 1), ('signed char', 1, 1), ('unsigned char', 1, 1), ('bool', 1, 1), ('std::byte', 1, 1), ('E1', 1, 1),
      ('short', 2, 1), ('unsigned short', 2, 1), ('char16_t', 2, 1), ('E2', 2, 1), ('int', 4, 1), ('unsigned', 4, 1), ('float', 4, 0),
      ('char32_t', 4, 1), ('wchar_t', 4, 1), ('E4', 4, 1), ('long', 8, 1), ('unsigned long long', 8, 1), ('double', 8, 0), ('E8', 8, 1),
      ('int *', 8, 1), ('void *', 8, 1), ('Inc *', 8, 1), ('char const *', 8, 1), ('long double', 16, 0), ('std::size_t', 8, 1),
      ('std::uint8_t', 1, 1), ('std::int64_t', 8, 1), ('int Nt6::*', 8, 0)]
PT = [('void (*%s)()', 8), ('int (*%s)(int)', 8), ('void (Inc::*%s)()', 16)]
NT = ['Nt1', 'Nt2', 'Nt3', 'Nt4', 'Nt5', 'Nt6', 'std::string', 'std::unique_ptr<int>', 'std::shared_ptr<char>']


def b(v):
    return 'true' if v else 'false'


class Agg:
    pass


def build(c, k, depth, cnt, budget):
    """declares an aggregate; returns it with the sum of its scalar sizes, size and alignment by the ABI rules"""
    a = Agg()
    n = 1 + c.length(3, 12)
    empties = c.chance(6)
    if depth == 0 and c.chance(3):
        n = 13 + c.below(48)
    style = c.below(5)
    if style == 0:
        pool = SC[:6]                             # bytes only
    elif style == 1:
        z = c.pick([1, 2, 4, 8])
        pool = [s for s in SC if s[1] == z]       # one size: dense
    elif style == 2:
        pool = sorted(SC, key=lambda s: -s[1])
    else:
        pool = SC
    fields = []
    for i in range(n):
        if empties and c.chance(25):
            t, z = c.pick([('Em', 1), ('Ec', 1), ('Ea', 8), ('Eb', 256), ('Ec2', 512)])
            fields.append((t + ' %s', 0, z, z, True, False))
            k.label('empty member')
            continue
        f = c.weighted([14, 5 if depth < 3 and budget[0] > 0 and n <= 12 else 0, 1, 1])
        if f == 1:
            budget[0] -= 1
            s = build(c, k, depth + 1, cnt, budget)
            fields.append((s.name + ' %s', s.sum, s.size, s.align, s.uniq, s.nontriv))
        elif f == 2:
            t, z = c.pick(PT)
            fields.append((t, z, z, 8, 'Inc::' not in t, False))
        else:
            t, z, u = c.pick(pool)
            fields.append((t + ' %s', z, z, z, u, False))
    if style == 2:
        fields.sort(key=lambda f: -f[3])
    off, al, sm, uniq, nt = 0, 1, 0, True, False
    body = []
    aligned = False
    ini = c.chance(15)      # initializers of members: no longer trivially constructible
    for i, (t, s, z, ga, u, ntr) in enumerate(fields):
        pre = ''
        if c.chance(2) and ga < 16:
            ga = c.pick([8, 16])
            pre = 'alignas(%d) ' % ga
            aligned = True
        off = (off + ga - 1) // ga * ga + z
        al = max(al, ga)
        sm += s
        uniq = uniq and u
        nt = nt or ntr
        if ini and c.chance(60):
            t += c.pick(['{}', ' = {}'])
        elif c.chance(3) and '(*' not in t and '*' not in t:
            pre += 'const '
            k.label('const member')
        body.append(pre + (t % ('f%d' % i)) + ';')
    cls = ''
    if c.chance(4):
        al = max(al, c.pick([2, 4, 8, 16, 32, 64, 256, 256, 512]))
        cls = 'alignas(%d) ' % al
    a.size = (off + al - 1) // al * al
    a.align, a.sum, a.uniq, a.nontriv = al, sm, uniq, nt
    a.name = 'A%d' % cnt[0]
    cnt[0] += 1
    a.n = n
    extra = c.pick(['', '', '', '', 'int method() const;', 'static int counter;', 'using type = int;', 'bool operator==(int) const;',
                    a.name + '(' + a.name + ' const &) = default;'])
    if extra.endswith('default;'):
        extra = extra + ' ' + a.name + '() = default;' + ' ' + a.name + ' &operator=(' + a.name + ' const &) = default;'
        if c.chance(30):
            extra = extra.replace('const &) = default;', 'const &) = delete;', 1)   # the copy constructor
            extra += ' ' + a.name + '(' + a.name + ' &&) = default;'
    k.decl('struct %s%s { %s%s };' % (cls, a.name, ' '.join(body), ' ' + extra if extra else ''))
    return a


def gen(c):
    k = Case()
    f = c.weighted([12, 2, 2])
    if f == 0:
        a = build(c, k, 0, [0], [6])
        for cv in ['', c.pick(['', ' const'])]:
            t = a.name + cv
            k.check('utils::has_padding_v<%s> == %s && utils::has_padding<%s>::value == %s' % (t, b(a.size != a.sum), t, b(a.size != a.sum)),
                    'has_padding<%s>: size %d, members %d' % (t, a.size, a.sum))
        k.check('sizeof(%s) == %d' % (a.name, a.size), 'the model knows the size of ' + a.name)
        if a.uniq:
            k.check('utils::has_padding_v<%s> == !std::has_unique_object_representations_v<%s>' % (a.name, a.name), 'unique representations of ' + a.name)
        k.trace = ' '.join(k.decls)
        k.label('padding' if a.size != a.sum else 'dense')
        k.label('member initializers', any('{}' in d for d in k.decls))
        k.label('nested', len(k.decls) > 1)
        k.label('nested and dense', len(k.decls) > 1 and a.size == a.sum)
        k.label('padding only inside', len(k.decls) > 1 and a.size != a.sum)
        k.nontrivial = a.n > 1 or len(k.decls) > 1
    elif f == 1 and c.chance(10):
        t = c.pick(['Em', 'Ec', 'Ea', 'Eb', 'Ec2']) + c.pick(['', ' const'])
        k.check('utils::has_padding_v<%s> && utils::has_padding<%s>::value' % (t, t), 'the bytes of an empty class are padding')
        k.trace = t
        k.label('empty')
        k.nontrivial = True
    elif f == 1:
        t = c.pick([s[0] for s in SC] + ['void (*)()', 'int Inc::*', 'std::nullptr_t']) + c.pick(['', ' const'])
        if '(*)' in t:
            t = 'void (*)()'
        k.check('!utils::has_padding_v<%s> && !utils::has_padding<%s>::value' % (t, t), 'a scalar has no padding: ' + t)
        k.trace = t
        k.label('scalar')
    else:
        d = c.below(3)
        m = c.pick(NT)
        if d == 0:
            t = m
        else:
            k.decl('struct B { %s%s m; };' % (c.pick(['', 'long x; ', 'char y; ']), m))
            t = 'B'
            if d == 2:
                k.decl('struct C { B b; int i; };')
                t = 'C'
        k.check('utils::has_padding_v<%s> && utils::has_padding<%s>::value' % (t, t), 'not trivially copyable: ' + m)
        k.trace = ' '.join(k.decls) or m
        k.label('not trivially copyable')
        k.nontrivial = True
    return k


RULE = 'one generated aggregate (possibly nested), scalar or non-trivially-copyable class; non-trivial: several members or a class that cannot be copied trivially'
TARGETS = [Target('padding', RULE, 4000, 60000, gen, batch=60, preamble=PRE),
           Target('padding_clang', RULE, 600, 8000, gen, batch=30, preamble=PRE, cxx='clang++')]
