"""A05: generated programs which build, concatenate and compare arrays; the model is a Python list."""
from ctlib import Case, Target
from arith_ct import INTS, lit, common, lo_hi, promote, value

PRE = '''#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <utils/type_list.h>
#include <utils/common.h>
// an element with identity: counts copies per id, a moved-from element has id -1
inline int copies[256];
struct Tr {
    int id;
    Tr() : id(0) {}
    explicit Tr(int i) : id(i) {}
    Tr(const Tr &o) : id(o.id) { if (id >= 0) ++copies[id]; }
    Tr(Tr &&o) noexcept : id(o.id) { o.id = -1; }
    Tr &operator=(const Tr &o) { id = o.id; if (id >= 0) ++copies[id]; return *this; }
    Tr &operator=(Tr &&o) noexcept { if (this != &o) { id = o.id; o.id = -1; } return *this; }
};
struct Mo {   // move only
    int id;
    Mo() : id(0) {}
    explicit Mo(int i) : id(i) {}
    Mo(Mo &&o) noexcept : id(o.id) { o.id = -1; }
    Mo &operator=(Mo &&o) noexcept { id = o.id; o.id = -1; return *this; }
};
struct Ca {   // copies and moves, but cannot be assigned
    int id;
    explicit Ca(int i) : id(i) {}
    Ca(const Ca &o) : id(o.id) { if (id >= 0) ++copies[id]; }
    Ca(Ca &&o) noexcept : id(o.id) { o.id = -1; }
    Ca &operator=(const Ca &) = delete;
};
struct Cp {   // copies only, never moves
    int id;
    explicit Cp(int i) : id(i) {}
    Cp(const Cp &o) = default;
    Cp &operator=(const Cp &) = default;
};
struct Nd {   // no default constructor, member const
    const int id;
    std::string s;
    explicit Nd(int i) : id(i), s(40, 'a' + i % 26) {}
};
inline bool whole(const Nd &n) { return n.s == std::string(40, 'a' + n.id % 26); }
template <typename T> bool whole(const T &) { return true; }
struct Eq {   // equal by key, not by tag; supports == and != only
    int key, tag;
    constexpr friend bool operator==(const Eq &a, const Eq &b) { return a.key == b.key; }
    constexpr friend bool operator!=(const Eq &a, const Eq &b) { return a.key != b.key; }
};
inline void reset() { for (auto &x : copies) x = 0; }
template <typename A, typename B> constexpr bool same(const A &a, const B &b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
    return true;
}
template <typename T> using decay = std::remove_cv_t<std::remove_reference_t<T>>;
'''


def arr(t, vals, f=None):
    """an initialised std::array expression"""
    f = f or (lambda v: lit(t, v))
    if not vals:
        return 'std::array<%s, 0>{}' % t
    return 'std::array<%s, %d>{{%s}}' % (t, len(vals), ', '.join(f(v) for v in vals))


def expect(k, cond, what):
    k.run('if (!(%s)) return "%s";' % (cond, what))


def values_numeric(c, k):
    n = 1 + c.length(4, 12)
    if c.chance(6):
        n = 13 + c.below(60)
    if c.chance(50):
        ts = [c.pick(list(INTS))] * n
        ct = ts[0]
    else:
        ts = [c.pick(list(INTS)) for _ in range(n)]
        ct = ts[0]
        for t in ts[1:]:   # std::common_type folds from the left
            ct = common(ct, t)
        # a list initialisation from variables may not narrow
        bad = [t for t in ts if lo_hi(t)[0] < lo_hi(ct)[0] or lo_hi(t)[1] > lo_hi(ct)[1]]
        if bad:
            ts, ct = [ts[0]] * n, ts[0]
    vs = [value(c, t) for t in ts]
    args = []
    for i, (t, v) in enumerate(zip(ts, vs)):
        how = c.below(4)
        if how == 0:
            args.append(lit(t, v))
        else:
            k.decl('%s %s x%d = %s;' % ('constexpr' if how > 1 else 'inline', t, i, lit(t, v)))
            args.append('x%d' % i if how < 3 else '%s(x%d)' % ('static_cast<%s>' % t, i))
    e = 'utils::make_array(%s)' % ', '.join(args)
    k.check('std::is_same_v<decltype(%s), std::array<%s, %d>>' % (e, ct, n), 'type of make_array(%s)' % ', '.join(ts))
    expect(k, 'same(%s, %s)' % (e, arr(ct, vs)), 'elements of make_array of values')
    if all('inline' not in d for d in k.decls):
        k.check('same(%s, %s)' % (e, arr(ct, vs)), 'elements of a constant make_array')
        k.label('constant')
    k.label('mixed types', len(set(ts)) > 1)
    k.nontrivial = n > 1
    k.trace = 'make_array(%s)' % ', '.join('%s %d' % x for x in zip(ts, vs))


def values_tracked(c, k):
    n = 1 + c.length(3, 8)
    if c.chance(6):
        n = 9 + c.below(24)
    mo = c.chance(25)
    t = 'Mo' if mo else c.pick(['Tr', 'Tr', 'Ca'])
    ids = c.shuffle(range(1, n + 1))
    cats = [c.pick(['rv', 'tmp'] if mo else ['lv', 'clv', 'rv', 'tmp', 'crv']) for _ in ids]
    k.run('reset();')
    args = []
    for i, (d, q) in enumerate(zip(ids, cats)):
        if q != 'tmp':
            k.run('%s%s x%d(%d);' % ('const ' if q in ('clv', 'crv') else '', t, i, d))
        args.append('x%d' % i if q in ('lv', 'clv') else '%s(%d)' % (t, d) if q == 'tmp' else 'std::move(x%d)' % i)
    k.run('auto r = utils::make_array(%s);' % ', '.join(args))
    expect(k, 'std::is_same_v<decltype(r), std::array<%s, %d>>' % (t, n), 'type of make_array of objects')
    for i, (d, q) in enumerate(zip(ids, cats)):
        expect(k, 'r[%d].id == %d' % (i, d), 'element %d of make_array' % i)
        if q in ('lv', 'clv', 'crv'):
            expect(k, 'x%d.id == %d' % (i, d), 'make_array changed an lvalue argument')
        if q in ('rv', 'tmp') and not mo:
            expect(k, 'copies[%d] == 0' % d, 'make_array copied an rvalue argument')
        if q == 'rv':
            expect(k, 'x%d.id == -1' % i, 'make_array did not move an rvalue argument')
    k.nontrivial = n > 1
    k.label('move only', mo)
    k.trace = 'make_array of %s: %s' % (t, ' '.join(cats))


def repeated(c, k):
    n = c.pick([0, 1, 2, 3, 5, 8, 17, 33, 100 + c.below(200)])
    f = c.below(4)
    if f == 0:
        t = c.pick(list(INTS))
        v = value(c, t)
        k.check('same(utils::make_array<%s, %d>(%s), %s)' % (t, n, lit(t, v), arr(t, [v] * n)),
                'make_array<%s, %d>(%d)' % (t, n, v))
        k.check('std::is_same_v<decltype(utils::make_array<%s, %d>(%s)), std::array<%s, %d>>' % (t, n, lit(t, v), t, n), 'type')
        k.run('volatile %s v = %s; if (!same(utils::make_array<%s, %d>(v), %s)) return "make_array of a repeated value";' %
              (t, lit(t, v), t, n, arr(t, [v] * n)))
        k.trace = 'make_array<%s, %d>(%d)' % (t, n, v)
    elif f == 1:
        t = c.pick(list(INTS))
        for e in ('utils::make_array<%s, %d>()' % (t, n), 'utils::make_zero_array<%s, %d>()' % (t, n)):
            k.check('same(%s, %s)' % (e, arr(t, [0] * n)), e)
            k.check('std::is_same_v<decltype(%s), std::array<%s, %d>>' % (e, t, n), 'type of ' + e)
        k.trace = 'make_zero_array<%s, %d>' % (t, n)
    elif f == 2:
        t = c.pick(['Tr', 'Ca', 'Cp', 'Nd'])
        lv = c.chance(50)
        if n == 0 and t != 'Tr':
            n = 4
        k.run('reset(); %s x(7);' % t)
        k.run('auto r = utils::make_array<%s, %d>(%s);' % (t, n, 'x' if lv else '%s(7)' % t))
        expect(k, 'std::is_same_v<decltype(r), std::array<%s, %d>>' % (t, n), 'type of a repeated object')
        k.run('for (auto &e : r) if (e.id != 7 || !whole(e)) return "element of make_array of a repeated object";')
        expect(k, 'x.id == 7', 'make_array changed the repeated object')
        k.trace = 'make_array<%s, %d>(%s)' % (t, n, 'lvalue' if lv else 'rvalue')
    else:
        k.run('auto r = utils::make_array<std::string, %d>(std::string(40, \'q\'));' % n)
        k.run('for (auto &e : r) if (e != std::string(40, \'q\')) return "element of make_array of a repeated string";')
        k.run('auto u = utils::make_zero_array<std::unique_ptr<int>, %d>(); for (auto &e : u) if (e) return "zero pointer";' % n)
        expect(k, 'std::is_same_v<decltype(u), std::array<std::unique_ptr<int>, %d>>' % n, 'type of a zero array')
        k.run('auto z = utils::make_zero_array<std::string, %d>(); for (auto &e : z) if (!e.empty()) return "zero";' % n)
        expect(k, 'r.size() == %d && z.size() == %d' % (n, n), 'size of an array of strings')
        k.trace = 'make_array<std::string, %d>' % n
    k.nontrivial = n > 1


CH = {'char': ('', 'std::string_view', 8, True), 'wchar_t': ('L', 'std::wstring_view', 32, True),
      'char16_t': ('u', 'std::u16string_view', 16, False), 'char32_t': ('U', 'std::u32string_view', 32, False)}


def from_view(c, k):
    ch = c.pick(list(CH)) if c.chance(30) else 'char'
    pre, sv, b, s = CH[ch]
    n = 20 + c.below(280) if c.chance(5) else c.below(20)
    vs = [c.pick([0, 32 + c.below(90), c.below(128), -1 if s else 255]) for _ in range(n)]
    k.decl('inline constexpr %s d[] = {%s};' % (ch, ', '.join([lit(ch, v) for v in vs] + [lit(ch, 0)])))
    sve = '%s(d, %d)' % (sv, n)
    if ch == 'char' and c.chance(40):
        ix = [c.below(n) for _ in range(c.below(9))] if n else []
        e = 'utils::sv_to_array<%s>(%s)' % (', '.join(map(str, ix)), sve)
        w = arr('char', [vs[i] for i in ix])
        k.check('same(%s, %s)' % (e, w), e)
        k.check('std::is_same_v<decay<decltype(%s)>, std::array<char, %d>>' % (e, len(ix)), 'type of ' + e)
        k.run('std::string_view s = %s; if (!same(utils::sv_to_array<%s>(s), %s)) return "sv_to_array";' %
              (sve, ', '.join(map(str, ix)), w))
        k.nontrivial = len(ix) > 1
        k.trace = e
        return
    m = n if c.chance(30) else c.below(n + 1)
    vt = c.pick([ch, ch, 'int', 'unsigned char', 'std::byte', 'long', 'unsigned int'])
    if vt == 'std::byte':
        w = arr(vt, [v & 255 for v in vs[:m]], lambda v: 'std::byte(%d)' % v)
    else:
        from arith_ct import wrap
        w = arr(vt, [wrap(vt, v) for v in vs[:m]])
    e = 'utils::make_array<%d, %s>(%s)' % (m, vt, sve)
    k.check('same(%s, %s)' % (e, w), e)
    k.check('std::is_same_v<decltype(%s), std::array<%s, %d>>' % (e, vt, m), 'type of ' + e)
    k.run('%s s = %s; if (!same(utils::make_array<%d, %s>(s), %s)) return "make_array of a string view";' %
          (sv, sve, m, vt, w))
    k.nontrivial = m > 1
    k.label('prefix', m < n)
    k.trace = e


def ranges(c, k):
    t = c.pick([x for x in INTS if x != 'bool'])
    lo, hi = lo_hi(t)
    b = value(c, t)
    if c.chance(25):
        b = hi - c.below(40)
    step = 1 if c.chance(40) else 1 + c.below(c.pick([5, 70]))
    n = c.below(400) if c.chance(8) else c.below(40)
    e = min(hi, b + n * step + c.below(step))
    if b + step > lo_hi(promote(t))[1]:
        b = e = max(lo, hi - step)
    st = '' if step == 1 and c.chance(50) else ', ' + lit(c.pick([t, 'int'] if step <= hi else ['int']), step)
    if st and 'int' not in st and INTS[t][0] < 8:
        st = ', %d' % step
    vs = list(range(b, e + 1, step))
    ct = t
    if st and c.chance(30):
        ct = c.pick([x for x in INTS if lo_hi(x)[0] <= lo and lo_hi(x)[1] >= hi])
        st += ', ' + ct
    x = 'utils::make_array_from_range<%s, %s%s>()' % (lit(t, b), lit(t, e), st)
    k.check('same(%s, %s)' % (x, arr(ct, vs)), x)
    k.check('std::is_same_v<decltype(%s), std::array<%s, %d>>' % (x, ct, len(vs)), 'type of ' + x)
    k.label('ends at the largest value', e == hi)
    k.nontrivial = len(vs) > 1
    k.trace = x


def long_range(c):
    k = Case()
    t = c.pick(['int', 'unsigned int', 'long', 'unsigned long long', 'char32_t'])
    lo, hi = lo_hi(t)
    n = c.pick([256, 257, 65536, 65537, 65535 + c.below(6000), 300 + c.below(60000)])  # elements
    step = c.pick([1, 1, 2, 3 + c.below(500)])
    b = c.pick([0, lo, hi - n * step, 1 + c.below(1000), (lo + hi) // 2 - 30000])
    e = b + (n - 1) * step + c.below(step)
    x = 'utils::make_array_from_range<%s, %s, %s>()' % (lit(t, b), lit(t, e), lit(t, step))
    k.run('auto r = std::make_unique<std::array<%s, %d>>(%s);' % (t, n, x))
    k.run('if (!std::is_same_v<decltype(%s), std::array<%s, %d>>) return "type of a long range";' % (x, t, n))
    k.run('%s want = %s;' % (t, lit(t, b)))
    k.run('for (std::size_t i = 0; i < %dul; ++i) { if ((*r)[i] != want) return "element of a long range"; if (i + 1 < %dul) want += %s; }' % (n, n, lit(t, step)))
    k.trace = x
    k.nontrivial = True
    k.label('more than 65535 elements', n > 65535)
    return k


def valid_range(c, k):
    t = c.pick([x for x in INTS if x != 'bool'])
    lo, hi = lo_hi(t)
    b = value(c, t)
    e = c.pick([b, value(c, t), max(lo, min(hi, b + c.below(9) - 4))])
    st = c.pick([t, promote(t)])
    step = c.pick([0, 1, 2, 1 + c.below(100), value(c, st)])
    if c.chance(20):        # the last values of the type
        b, e, step = hi - c.below(4), hi - c.below(2), c.pick([1, 1, 2, 3])
    if lo < 0 and c.chance(30):
        step = -1 - c.below(50)
    step = max(lo_hi(st)[0], min(lo_hi(st)[1], step))
    pl, ph = lo_hi(common(promote(t), promote(st)))
    nxt = b + step
    if pl < 0:
        if not pl <= nxt <= ph:
            step, nxt = 1, b + 1    # a sum which overflows is no constant
            if nxt > ph:
                step, nxt = 0, b
    else:
        nxt &= ph
    want = str(b == e or (b < e and b < nxt)).lower()
    a = '%s, %s' % (lit(t, b), lit(t, e)) + ('' if step == 1 and c.chance(50) else ', ' + lit(st, step))
    k.check('utils::is_valid_range_v<%s> == %s && utils::is_valid_range<%s>::value == %s' % (a, want, a, want), 'is_valid_range<%s>' % a)
    k.label('invalid range', want == 'false')
    k.nontrivial = b != e
    k.trace = 'is_valid_range<%s>' % a


def concat(c, k):
    m = 1 + c.length(2, 6)
    if c.chance(6):
        m = 6 + c.below(10)
    sizes = [c.pick([0, 1, 2, 3, 4, c.below(12)]) for _ in range(m)]
    if c.chance(35):
        t = c.pick(list(INTS) + ['Eq'])
        f = (lambda v: 'Eq{%d, %d}' % (v, v + 1)) if t == 'Eq' else None
        data = [[c.below(50) if t == 'Eq' else value(c, t) for _ in range(s)] for s in sizes]
        args = []
        for i, d in enumerate(data):
            if c.chance(50):
                k.decl('inline constexpr auto a%d = %s;' % (i, arr(t, d, f)))
                args.append('a%d' % i)
            else:
                args.append(arr(t, d, f))
        e = 'utils::concatenate_arrays(%s)' % ', '.join(args)
        w = arr(t, sum(data, []), f)
        k.check('same(%s, %s)' % (e, w), 'concatenation of %s' % sizes)
        k.check('std::is_same_v<decltype(%s), std::array<%s, %d>>' % (e, t, sum(sizes)), 'type of a concatenation')
        k.trace = 'concatenate %s arrays of sizes %s' % (t, sizes)
    else:
        mo = c.chance(25)
        t = 'Mo' if mo else 'Tr'
        cats = [c.pick(['rv', 'tmp'] if mo else ['lv', 'clv', 'rv', 'tmp', 'crv']) for _ in sizes]
        k.run('reset();')
        args, pos, ids = [], 0, iter(c.shuffle(range(1, sum(sizes) + 1)))
        chk, data = [], []
        for i, (s, q) in enumerate(zip(sizes, cats)):
            d = [next(ids) for _ in range(s)]
            data.append(d)
            ex = arr(t, d, lambda v: '%s(%d)' % (t, v))
            if q == 'tmp':
                args.append(ex)
            else:
                k.run('%sstd::array<%s, %d> a%d = %s;' % ('const ' if q in ('clv', 'crv') else '', t, s, i,
                                                       '{{%s}}' % ', '.join('%s(%d)' % (t, v) for v in d) if d else '{}'))
                args.append('a%d' % i if q in ('lv', 'clv') else 'std::move(a%d)' % i)
        k.run('auto r = utils::concatenate_arrays(%s);' % ', '.join(args))
        expect(k, 'std::is_same_v<decltype(r), std::array<%s, %d>>' % (t, sum(sizes)), 'type of a concatenation')
        for i, (d, q) in enumerate(zip(data, cats)):
            for j, v in enumerate(d):
                expect(k, 'r[%d].id == %d' % (pos, v), 'element %d of a concatenation' % pos)
                pos += 1
                if q in ('lv', 'clv', 'crv'):
                    expect(k, 'a%d[%d].id == %d' % (i, j, v), 'a concatenated lvalue array changed')
                if q in ('rv', 'tmp') and not mo:
                    expect(k, 'copies[%d] == 0' % v, 'an element of an rvalue array was copied')
                if q == 'rv':
                    expect(k, 'a%d[%d].id == -1' % (i, j), 'an element of an rvalue array was not moved')
        k.label('move only', mo)
        k.label('lvalue and rvalue arrays', len(set(cats)) > 1)
        k.trace = 'concatenate %s arrays: %s' % (t, ' '.join('%s[%d]' % x for x in zip(cats, sizes)))
    k.label('an empty array', 0 in sizes)
    k.nontrivial = m > 1 and sum(sizes) > 1


def compare(c, k):
    t = c.pick(['int', 'unsigned char', 'char', 'long', 'double', 'std::string', 'Eq', 'bool', 'std::byte'])
    n = c.below(14)
    big = c.chance(10)
    if big:
        n = 40 + c.below(60)
    a = [c.below(4) for _ in range(n)]
    b = list(a)
    for _ in range(c.pick([0, 0, 1, 1, 2, 3])):
        if n:
            b[n - 1 if c.chance(30) else c.below(n)] = c.below(4)
    f = {'double': lambda v: '%d.5' % v, 'std::string': lambda v: 'std::string("%s")' % ('ab' * v),
         'Eq': None, 'bool': lambda v: 'true' if v & 1 else 'false',
         'std::byte': lambda v: 'std::byte(%d)' % v}.get(t, lambda v: lit(t, v))
    ea = arr(t, a, f or (lambda v: 'Eq{%d, 1}' % v))
    eb = arr(t, b, f or (lambda v: 'Eq{%d, 2}' % v))
    if t == 'bool':
        a, b = [v & 1 for v in a], [v & 1 for v in b]
    cnt = n if c.chance(30) else c.below(n + 1)
    want = a[:cnt] == b[:cnt]
    full = a == b
    if t != 'std::string':
        k.check('utils::is_equal(%s, %s, %d) == %s' % (ea, eb, cnt, str(want).lower()), 'is_equal of a prefix of %d' % cnt)
        k.check('utils::is_equal(%s, %s) == %s' % (ea, eb, str(full).lower()), 'is_equal of %d elements' % n)
    k.run('auto a = %s; const auto b = %s; volatile std::size_t n = %d;' % (ea, eb, cnt))
    expect(k, 'utils::is_equal(a, b, n) == %s && utils::is_equal(b, a, n) == %s' % ((str(want).lower(),) * 2), 'is_equal of a prefix')
    expect(k, 'utils::is_equal(a, b) == %s && utils::is_equal(a, a)' % str(full).lower(), 'is_equal of whole arrays')
    k.label('equal prefix of unequal arrays', want and not full)
    k.label('equal', full)
    k.nontrivial = cnt > 1
    k.trace = 'is_equal<%s, %d>(%s, %s, %d)' % (t, n, a, b, cnt)


def gen(c):
    k = Case()
    f = c.pick([values_numeric, values_tracked, repeated, from_view, ranges, valid_range, concat, concat, compare])
    f(c, k)
    k.label(f.__name__)
    return k


RULE = 'one generated program building, concatenating or comparing arrays; non-trivial: two or more elements involved'
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
TARGETS = [Target('arrays', RULE, 4000, 120000, gen, batch=100, preamble=PRE, runs=True, flags=['-O1']),
           Target('arrays_sanitized', RULE, 400, 12000, gen, batch=50, preamble=PRE, runs=True, flags=SAN),
           Target('arrays_clang', RULE, 800, 24000, gen, batch=100, preamble=PRE, runs=True, flags=['-O1'], cxx='clang++'),
           Target('long_ranges', 'one range of more than 255 elements; all non-trivial', 24, 400, long_range, batch=3, preamble=PRE, runs=True, flags=['-O1'])]
