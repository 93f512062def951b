"""H01: generated programs of one or several translation units, each of which includes a generated sequence of
headers, with uses of what every included header offers between the includes."""
import hashlib
import json
import os
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from ctlib import Ctx, case_seed, first_error

PUBLIC = ['cartesian_product.h', 'clz.h', 'common.h', 'ctz.h', 'detector.h', 'fast_pimpl.h', 'function_traits.h', 'padding_checker.h',
          'timer.h', 'type_list.h', 'utils.h', 'value_list.h', 'memory/allocator.h', 'memory/memory.h',
          'memory/monotonic_buffer_resource.h', 'memory/simple_resource.h']
STD = ['cassert', 'vector', 'string', 'algorithm', 'cstring', 'type_traits', 'memory', 'array', 'tuple', 'functional', 'limits', 'chrono',
       'atomic', 'cstdint', 'utility', 'memory_resource', 'iostream', 'map', 'stdlib.h', 'string.h', 'math.h']

# uses of what a header offers: declarations for namespace scope; PROBE stands for a function returning bool
USES = {
    'clz.h': ['static_assert(utils::clz(1u) == 31);', 'template <typename T> bool PROBE(T v = 5) { return utils::clz(v) == sizeof(T) * 8 - 3; } bool PROBE() { return PROBE<unsigned char>(5) && PROBE<unsigned long long>(5); }',
              'bool PROBE() { unsigned short v = 1; return utils::clz(v) == 15; }'],
    'ctz.h': ['static_assert(utils::ctz(8ul) == 3);', 'bool PROBE() { unsigned char v = 64; return utils::ctz(v) == 6; }'],
    'common.h': ['bool PROBE() { auto a = utils::make_array(1, 2, 3); return utils::is_equal(a, a) && a[2] == 3; }',
                 'bool PROBE() { utils::abort_if(false); UTILS_ABORT_IF(false, "x %d", 3); UTILS_DEBUG_ABORT_IF(false); return true; }',
                 'bool PROBE() { int v[4] = {}; return utils::memvcmp(v, 0, sizeof v) && utils::is_aligned<int>(v) && utils::skip_to_align<int>(v) == 0; }',
                 'static_assert(utils::bits_count(255) == 8 && utils::is_power_of_2(64) && utils::kNumBitsTable[7] == 3);',
                 'static_assert(sizeof(utils::uint_from_nbits_t<17>) == 4);', 'bool PROBE() { return utils::make_zero_array<char, 3>()[1] == 0 && utils::make_array<int, 4>(3)[3] == 3; }',
                 'static_assert(utils::is_uint_v<unsigned> && !utils::is_uint_v<bool>);',
                 'bool PROBE() { return utils::concatenate_arrays(utils::make_array(1, 2), utils::make_array(3))[2] == 3; }',
                 'bool PROBE() { return utils::make_array_from_range<1, 7, 2>()[3] == 7 && utils::max_alignment_inside_block(8, 8) == 8; }',
                 'bool PROBE() { return utils::next_multiple_of(8, 9) == 16 && utils::greatest_divisor_that_is_power_of_2(24u) == 8; }',
                 'enum class en { a, b }; bool PROBE() { return utils::to_underlying(en::b) == 1; }'],
    'detector.h': ['template <typename T> using foo_t = decltype(T().foo()); struct has { int foo(); }; static_assert(utils::is_detected_v<foo_t, has> && !utils::is_detected_v<foo_t, int>);',
                   'template <typename T> using bar_t = decltype(T().bar()); static_assert(utils::is_detected_exact_v<utils::nonesuch, bar_t, int> && sizeof(utils::detected_or_t<char, bar_t, int>) == 1);'],
    'fast_pimpl.h': ['struct in { int v; in(int w) : v(w) {} }; bool PROBE() { utils::fast_pimpl<in, sizeof(in), alignof(in)> p(utils::forwarding_constructor{}, 4), q(p); q = p; return q->v == 4 && p.get().v == 4; }',
                     'struct sm { }; bool PROBE() { utils::fast_pimpl<sm, 1, 1> p, q; p = static_cast<utils::fast_pimpl<sm, 1, 1> &&>(q); return true; }'],
    'function_traits.h': ['static_assert(utils::function_traits::is_invocable_v<int (*)(char) noexcept>);',
                          'using rt = utils::function_traits::return_type_t<int(char) const>; static_assert(sizeof(rt) == sizeof(int));',
                          'CREATE_MEMBER_TYPE_CHECKERS(inner) struct with { using inner = int; }; static_assert(has_type_inner_v<with>);',
                          'CREATE_METHOD_CHECKERS(meth) struct wm { int meth(int) const; }; static_assert(has_invocable_meth_v<wm, int>);',
                          'CREATE_R_METHOD_CHECKERS(rmeth)', 'CREATE_STATIC_METHOD_CHECKERS(smeth)', 'CREATE_MEMBER_DATA_CHECKERS(data_) struct wd { int data_; };', 'CREATE_STATIC_MEMBER_DATA_CHECKERS(sdata)',
                          'void fun(int); CREATE_FREE_FUNCTION_CHECKERS(fun) static_assert(is_fun_invocable_v<int>);'],
    'padding_checker.h': ['struct pd { char c; int i; }; struct np { int a, b; }; static_assert(utils::has_padding_v<pd> && !utils::has_padding_v<np>);'],
    'timer.h': ['bool PROBE() { int n = 0; { utils::timer t([&n](auto const &) noexcept { ++n; }); utils::timer u(static_cast<utils::timer &&>(t)); } return n == 1; }'],
    'type_list.h': ['using l = utils::type_list<char, int, double>; static_assert(l::size == 3 && l::contains<int>::value && sizeof(l::at<2>) == 8);',
                    'static_assert(utils::type_list<char, char>::count_of<char> == 2);', 'static_assert(utils::sort_sizeof_ascending_t<utils::type_list<double, char>>::size == 2);',
                    'static_assert(utils::concatenate_t<utils::type_list<int>, utils::type_list<char>>::size == 2);', 'static_assert(utils::sublist_t<utils::type_list<int, char, long>, 1, 2>::size == 2);'],
    'value_list.h': ["using v = utils::value_list<1, 'c', 3>; static_assert(v::size == 3 && v::at<2> == 3);", 'static_assert(utils::value_list<7, 7>::is_same::value);'],
    'cartesian_product.h': [],
    'utils.h': ['static_assert(utils::clz(1u) == 31); bool PROBE() { return utils::memory::get_default_resource() != nullptr; }'],
    'memory/memory.h': ['bool PROBE() { auto *r = utils::memory::system_memory_resource(); void *p = r->allocate(10); bool ok = p; r->deallocate(p); return ok && *r != *utils::memory::null_memory_resource(); }',
                        'bool PROBE() { char a[4] = "abc", b[4]; utils::memory::memcpy(b, a, 4); return b[1] == \'b\' && utils::memory::get_alignment(reinterpret_cast<void *>(48)) == 16; }',
                        'bool PROBE() { void *p = utils::memory::aligned_malloc(8, 64); utils::memory::aligned_free(p); return p; }',
                        'template <typename B> bool PROBE(B *b) { B c[2]{}; utils::memory::memmove(c, b, 2); return utils::memory::secure_zero_memory_safe(b, 2) == 0; } bool PROBE() { std::byte c[2]{}; return PROBE(c); }',
                        'static const auto at_start = utils::memory::get_default_resource(); bool PROBE() { return at_start && at_start == utils::memory::system_memory_resource(); }'],
    'memory/allocator.h': ['bool PROBE() { utils::memory::allocator<int> a; int *p = a.allocate(3); a.construct(p, 4); bool ok = *p == 4; a.deallocate(p); return ok; }',
                           'static utils::memory::allocator<char> at_start; bool PROBE() { utils::memory::allocator<long> b(at_start); return b == at_start && at_start.resource() == utils::memory::system_memory_resource(); }'],
    'memory/monotonic_buffer_resource.h': ['bool PROBE() { static std::byte b[64]; utils::memory::monotonic_buffer_resource r(b); void *p = r.allocate(8, 8); r.deallocate(p); r.release(); return p && r.size() == 64; }'],
    'memory/simple_resource.h': ['bool PROBE() { alignas(64) static std::byte b[1024]; utils::memory::simple_resource<16, 64> r(b); void *p = r.allocate(100); bool ok = p; r.deallocate(p); return ok; }',
                                 'bool PROBE() { utils::memory::simple_resource<300, 32> r(nullptr, 0, utils::memory::null_memory_resource()); void *p = r.allocate(1); r.release(); return p == nullptr && r.busy_count() == 0; }'],
}
MEM = [h for h in PUBLIC if h.startswith('memory/')] + ['utils.h']


def unit_text(unit, k):
    """text of translation unit k"""
    out, probes, has_mem = [], [], False
    for n, (what, x) in enumerate(unit['items']):
        if what == 'h':
            out.append('#include <utils/%s>' % x)
            has_mem = has_mem or x in MEM
        elif what == 's':
            out.append('#include <%s>' % x)
        else:
            h, i = x
            name = 'probe_%d' % n
            t = USES[h][i]
            out.append('namespace u%d_%d {\n%s\n}' % (k, n, t.replace('PROBE', name)))
            if 'bool PROBE()' in t:
                probes.append('u%d_%d::%s()' % (k, n, name))
    out.append('int unit_%d() { int bad = 0;' % k)
    for i, p in enumerate(probes):
        out.append('if (!%s) bad = %d;' % (p, i + 1))
    out.append('return bad; }')
    if has_mem:
        out += ['static utils::memory::memory_resource *start_%d = utils::memory::get_default_resource();' % k,
                'void *shared_%d(int w, void *p) { switch (w) {' % k,
                'case 0: return utils::memory::system_memory_resource(); case 1: return utils::memory::null_memory_resource();',
                'case 2: return utils::memory::get_default_resource(); case 3: return start_%d;' % k,
                'default: return utils::memory::set_default_resource(static_cast<utils::memory::memory_resource *>(p)); } }']
    return '\n'.join(out) + '\n', has_mem


def main_text(mem, n):
    """the unit with main: every program-wide facility must be the same whichever unit is asked"""
    out = ['#include <cstdio>', '#define CHECK(c, w) if (!(c)) { std::printf("FAILED %s\\n", w); return 1; }']
    out += ['int unit_%d();' % k for k in range(n)] + ['void *shared_%d(int, void *);' % k for k in mem]
    # asked while the program starts, from a unit which knows nothing of the headers
    out += ['static void *early_%d = shared_%d(2, nullptr);' % (k, k) for k in mem]
    out.append('int main() {')
    out += ['CHECK(early_%d && early_%d == shared_%d(0, nullptr), "the default is the system resource before main");' % (k, k, k) for k in mem]
    out += ['if (int b = unit_%d()) { std::printf("FAILED use %%d of unit %d\\n", b); return 1; }' % (k, k) for k in range(n)]
    for a in mem:
        out.append('CHECK(shared_%d(2, nullptr) == shared_%d(0, nullptr), "the default is the system resource");' % (a, a))
        out.append('CHECK(shared_%d(3, nullptr) == shared_%d(0, nullptr), "the default is set during initialization");' % (a, a))
        for b in mem:
            if a == b:
                continue
            for w, what in ((0, 'system'), (1, 'null')):
                out.append('CHECK(shared_%d(%d, nullptr) == shared_%d(%d, nullptr), "one %s resource");' % (a, w, b, w, what))
            out.append('CHECK(shared_%d(4, shared_%d(1, nullptr)) == shared_%d(0, nullptr), "the replaced default is returned");' % (a, b, b))
            out.append('CHECK(shared_%d(2, nullptr) == shared_%d(1, nullptr), "one default resource");' % (b, a))
            out.append('CHECK(shared_%d(4, shared_%d(0, nullptr)) == shared_%d(1, nullptr), "the replaced default is returned");' % (b, b, a))
    out.append('return 0; }')
    return '\n'.join(out) + '\n'


def some_unit(c, mx):
    items = []
    n = 1 + c.length(4, mx)
    for _ in range(n):
        k = c.weighted([8, 6, 2])
        seen = [x for w, x in items if w == 'h']
        if k == 1:
            usable = [h for h in seen if USES[h]]
            if usable:
                h = c.pick(usable)
                items.append(('p', (h, c.below(len(USES[h])))))
                continue
        if k == 2:
            items.append(('s', c.pick(STD)))
            continue
        items.append(('h', c.pick(PUBLIC)))
    if not any(w == 'h' for w, x in items):
        items.append(('h', c.pick(PUBLIC)))
    if c.chance(50):           # everything the last header offers
        h = [x for w, x in items if w == 'h'][-1]
        items += [('p', (h, i)) for i in range(len(USES[h]))]
    return dict(cxx=c.pick(['g++', 'g++', 'clang++']), items=items)


def gen_one(c):
    return dict(units=[some_unit(c, 14)], flags=['-DNDEBUG'] if c.chance(30) else [], link=False)


def gen_program(c):
    n = 2 + c.length(1, 3)
    flags = [c.pick(['-O0', '-O0', '-O1', '-O2'])] + (['-DNDEBUG'] if c.chance(30) else [])
    return dict(units=[some_unit(c, 7) for _ in range(n)], flags=flags, link=True)


def alone():
    """every header, first and only, with each of its uses"""
    out = []
    for h in PUBLIC:
        for cxx in ('g++', 'clang++'):
            out.append(dict(units=[dict(cxx=cxx, items=[('h', h)] + [('p', (h, i)) for i in range(len(USES[h]))])], flags=[], link=False))
            out.append(dict(units=[dict(cxx=cxx, items=[('h', h)])], flags=['-DNDEBUG'], link=False))
    return out


def pairs():
    """every ordered pair of headers, with the uses of both"""
    return [dict(units=[dict(cxx='g++' if (i + j) % 2 else 'clang++', items=[('h', a), ('h', b)] + [('p', (h, n)) for h in (a, b) for n in range(len(USES[h]))])],
                 flags=[], link=False) for i, a in enumerate(PUBLIC) for j, b in enumerate(PUBLIC)]


def describe(case):
    def item(w, x):
        return {'h': '<utils/%s>', 's': '<%s>', 'p': 'use %s'}[w] % (x if w != 'p' else '%s#%d' % tuple(x))
    return ' || '.join('%s: %s' % (u['cxx'], ' '.join(item(w, x) for w, x in u['items'])) for u in case['units']) + (' (linked, %s)' % ' '.join(case['flags']) if case['link'] else ' ' + ' '.join(case['flags']))


class Judge:
    def __init__(self, env):
        from run import includes
        self.inc, self.tmp, self.count = includes(), env.build, 0

    def sh(self, cmd):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300, cwd=self.tmp)
            if r.returncode and ('Killed' in r.stdout or 'internal compiler error' in r.stdout or 'out of memory' in r.stdout):
                return None, r.stdout
            return r.returncode == 0, r.stdout
        except subprocess.TimeoutExpired:
            return None, 'timeout'

    def __call__(self, case, tag):
        """None if the program is fine, else (kind, message)"""
        base = os.path.join(self.tmp, 'h01-' + tag)
        files, objs, mem = [], [], []
        try:
            for k, u in enumerate(case['units']):
                text, m = unit_text(u, k)
                if m:
                    mem.append(k)
                p = '%s-%d.cpp' % (base, k)
                open(p, 'w').write(text)
                files.append(p)
                cmd = [u['cxx'], '-std=c++17', '-w'] + case['flags'] + self.inc
                if case['link']:
                    objs.append(p[:-4] + '.o')
                    cmd += ['-c', p, '-o', objs[-1]]
                else:
                    cmd += ['-fsyntax-only', p]
                ok, out = self.sh(cmd)
                if ok is None:
                    return None
                if not ok:
                    return 'compile', 'a translation unit does not compile: ' + first_error(out)
            if not case['link']:
                return None
            p = base + '-main.cpp'
            open(p, 'w').write(main_text(mem, len(case['units'])))
            files.append(p)
            exe = base + '.out'
            objs.append(exe)
            ok, out = self.sh(['g++', '-std=c++17', '-w'] + ([p] if len(case['flags']) == 1 else []) + [o for o in objs if o != exe] + ([p] if len(case['flags']) != 1 else []) + ['-o', exe])
            if ok is None:
                return None
            if not ok:
                line = [l for l in out.splitlines() if 'multiple definition' in l or 'undefined reference' in l]
                return 'link', 'the translation units do not link: ' + (line[0] if line else out[-300:])
            ok, out = self.sh([exe])
            if ok is False:
                return 'run', 'the program fails: ' + out[-300:]
            return None
        finally:
            for f in files + objs:
                if os.path.exists(f):
                    os.unlink(f)


def shrink(judge, case, kind, secs=40):
    end = time.time() + secs
    n = 0

    def smaller(c):
        us = c['units']
        for i in range(len(us)):
            if len(us) > 1:
                yield dict(c, units=us[:i] + us[i + 1:])
        for i, u in enumerate(us):
            for size in (4, 2, 1):
                for j in range(0, len(u['items']) - size + 1):
                    items = u['items'][:j] + u['items'][j + size:]
                    # a use needs its header before it
                    ok, seen = True, set()
                    for w, x in items:
                        if w == 'h':
                            seen.add(x)
                        elif w == 'p' and x[0] not in seen:
                            ok = False
                    if ok and (items or len(us) > 1):
                        yield dict(c, units=us[:i] + [dict(u, items=items)] + us[i + 1:])
        if c['flags'] and not c['link']:
            yield dict(c, flags=[])

    progress = True
    with ThreadPoolExecutor(8) as ex:
        while progress and time.time() < end:
            progress = False
            cands = list(smaller(case))
            for a in range(0, len(cands), 8):
                part = cands[a:a + 8]
                rs = list(ex.map(lambda p: judge(p[1], 's%d' % p[0]), enumerate(part)))
                hit = [c for c, r in zip(part, rs) if r and r[0] == kind]
                if hit:
                    case, progress = hit[0], True
                    break
                if time.time() > end:
                    break
    return case


def report(env, judge, case, r):
    from run import Violation
    case = shrink(judge, case, r[0])
    msgs = [judge(case, 'r%d' % i) for i in range(3)]
    good = [m for m in msgs if m]
    if not good:
        env.notes.append('a failure did not reproduce and was not reported: ' + r[1])
        return
    rp = os.path.join(env.replay_dir, '%s-program.txt' % env.pid)
    with open(rp, 'w') as f:
        f.write('property %s\nkind h01\ncase %s\nmessage %s\nwhat %s\n-----\n' % (env.pid, json.dumps(case), good[0][1].replace('\n', ' '), describe(case)))
        for k, u in enumerate(case['units']):
            f.write('// unit %d, %s -std=c++17 %s\n%s' % (k, u['cxx'], ' '.join(case['flags']), unit_text(u, k)[0]))
    raise Violation(rp, good[0][1], describe(case))


def replay(env, path):
    for l in open(path):
        if l.startswith('case '):
            r = Judge(env)(json.loads(l[5:]), 'replay')
            print(r[1] if r else 'holds')
            return r is not None
    return False


class Named:
    def __init__(self, name):
        self.name = name


def run(env):
    judge = Judge(env)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    th = env.tier == 'thorough'
    sets = [('alone', 'every public header as the only one, with all uses of it, under both compilers; non-trivial: always', alone(), None),
            ('sequences', 'one translation unit with a random sequence of library and standard headers, repeats included, and uses in between; non-trivial: two different library headers or a repeat and a use', None, (gen_one, 90, 5000)),
            ('programs', '2 to 5 translation units linked and run, program-wide resources compared across units; non-trivial: two units share a header', None, (gen_program, 45, 2500))]
    if th:
        sets.insert(1, ('pairs', 'every ordered pair of public headers, with all uses; non-trivial: always', pairs(), None))
    for name, rule, fixed, g in sets:
        t0 = time.time()
        if fixed is None:
            n = max(1, int((g[2] if th else g[1]) * scale))
            cases = [g[0](Ctx(case_seed(env.seed, Named('h01_' + name), i))) for i in range(n)]
        else:
            cases = fixed
        rec = dict(target=name, rule=rule, flavour='g++/clang++', evaluations=0, nontrivial=0, distinct=0, labels={}, samples=[], wall_s=0)
        env.records.append(rec)
        keys = set()
        bad = None
        with ThreadPoolExecutor(8) as ex:
            for a in range(0, len(cases), 64):
                part = cases[a:a + 64]
                rs = list(ex.map(lambda p: judge(p[1], '%s-%d' % (name, p[0])), enumerate(part)))
                for c, r in zip(part, rs):
                    rec['evaluations'] += 1
                    hs = [x for u in c['units'] for w, x in u['items'] if w == 'h']
                    nt = fixed is not None or (c['link'] and (len(hs) > len(set(hs)) or 'utils.h' in hs)) or \
                        (not c['link'] and len(hs) > 1 and any(w == 'p' for w, x in c['units'][0]['items']))
                    if nt:
                        rec['nontrivial'] += 1
                        keys.add(describe(c))
                    for l in ['repeated header'] * (len(hs) > len(set(hs))) + ['memory shared by units'] * (sum(any(w == 'h' and x in MEM for w, x in u['items']) for u in c['units']) > 1):
                        rec['labels'][l] = rec['labels'].get(l, 0) + 1
                    if r and not bad:
                        bad = (c, r)
                if bad:
                    break
        rec['samples'] = [describe(c)[:400] for c in cases[:3]]
        rec['distinct'] = len(keys)
        rec['wall_s'] = time.time() - t0
        if bad:
            report(env, judge, *bad)
