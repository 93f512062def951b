"""Types with a known size, and distinct types without one. Different spellings here are different types."""
DECLS = '''
struct S1 { char a; };
struct S3 { char a[3]; };
struct S5 { char a[5]; };
struct S12 { int a, b, c; };
struct S16 { double a, b; };
struct S24 { double a[3]; };
struct Em {};
struct alignas(32) A32 { char a; };
struct alignas(16) A16 { char a; };
union Un { int i; double d; };
struct Vi { virtual ~Vi(); };
struct Inc;
enum E4 { e4a, e4b = 100 };
enum class E1 : unsigned char {};
enum class E8 : long {};
template <typename T> struct Tm {};
'''
SIZED = [('bool', 1), ('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2),
         ('int', 4), ('unsigned int', 4), ('long', 8), ('unsigned long', 8), ('long long', 8),
         ('unsigned long long', 8), ('float', 4), ('double', 8), ('long double', 16), ('char16_t', 2), ('char32_t', 4),
         ('wchar_t', 4), ('void *', 8), ('int *', 8), ('int const *', 8), ('int const', 4), ('int volatile', 4),
         ('char const', 1), ('int *const', 8), ('S1', 1), ('S3', 3), ('S5', 5), ('S12', 12), ('S16', 16), ('S24', 24),
         ('Em', 1), ('A32', 32), ('Un', 8), ('Vi', 8), ('S3 const', 3), ('E4', 4), ('E1', 1), ('E8', 8),
         ('Tm<int>', 1), ('Tm<char>', 1), ('int (*)(int)', 8), ('int S3::*', 8), ('void (S3::*)()', 16),
         ('int[3]', 12), ('char[7]', 7), ('int const[2]', 8), ('std::nullptr_t', 8),
         ('std::array<short, 3>', 6), ('Tm<Tm<int>>', 1), ('char[256]', 256), ('char[65536]', 65536), ('S3[22000]', 66000),
         ('char[4294967297]', 4294967297),
         # same sizes as above, other alignments
         ('char[3]', 3), ('char[4]', 4), ('short[2]', 4), ('char[5]', 5), ('char[6]', 6), ('char[8]', 8), ('short[4]', 8),
         ('int[2]', 8), ('char[12]', 12), ('short[6]', 12), ('char[16]', 16), ('long[2]', 16), ('A16', 16), ('char[24]', 24),
         ('int[6]', 24), ('char[32]', 32), ('short[16]', 32), ('double[4]', 32), ('A16[2]', 32), ('char[66000]', 66000),
         ('int[16500]', 66000)]
LISTS = [('utils::type_list<>', 1), ('utils::type_list<int>', 1), ('utils::type_list<int, char>', 1),
         ('utils::type_list<char, int>', 1), ('utils::value_list<1>', 1), ('utils::value_list<>', 1)]
UNSIZED = ['void', 'Inc', 'int(int)', 'void() const', 'int(int, ...)', 'int[]', 'void const']
REFS = ['int &', 'int &&', 'int const &', 'S3 &', 'Inc &', 'int(&)(int)', 'int(&)[3]']
ALL = [t for t, _ in SIZED] + [t for t, _ in LISTS] + UNSIZED + REFS
SIZE = dict(SIZED + LISTS)


def types(c, avg, mx, pool=None, dup=40):
    """a list of types, drawn from a few candidates so that repetitions happen"""
    pool = pool or ALL
    few = [c.pick(pool) for _ in range(1 + c.below(5))]
    n = c.length(avg, mx)
    if mx >= 24 and c.chance(3):
        n = c.below(100)
    return [c.pick(few) if c.chance(dup) else c.pick(pool) for _ in range(n)]


def many(c, pool=None):
    """more than 255 types, often more than 255 times the same one"""
    pool = pool or ALL
    few = [c.pick(pool) for _ in range(1 + c.below(3))]
    n = c.pick([256, 257, 256 + c.below(80), 256 + c.below(80)])
    odd = c.pick([0, 1, 5, 60])
    ts = [c.pick(pool) if c.chance(odd) else few[0] if c.chance(85) else c.pick(few) for _ in range(n)]
    for i in {255, n - 1}:  # a type whose first position is beyond 254
        if i < n and c.chance(60):
            ts[i] = c.pick(sorted(set(pool) - set(ts)) or pool)
    return ts


def tl(ts):
    return 'utils::type_list<%s>' % ', '.join(ts)
