"""O03: the located forms, in generated functions of generated files and lines."""
from ctlib import Case, Target

PRE = r'''#include <utils/common.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
inline std::string why;
struct Died { bool clean, aborted; std::string err; };
template <typename F> Died in_child(F f) {
    int p[2];
    if (pipe(p)) std::exit(0);
    pid_t pid = fork();
    if (pid < 0) std::exit(0);
    if (!pid) {
        rlimit no{0, 0}; setrlimit(RLIMIT_CORE, &no);
        close(p[0]); dup2(p[1], 2); signal(SIGABRT, SIG_DFL); alarm(60);
        f();
        std::fflush(stderr);
        _exit(0);
    }
    close(p[1]);
    Died d{};
    char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) d.err.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    d.clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    d.aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
    return d;
}
inline void say(char const *w) { ssize_t r = write(2, w, std::string(w).size()); (void)r; }
inline bool child;
inline bool seen(bool v) { if (child) say("!"); return v; }
inline std::string func;     // what the function which holds the check calls itself
inline const char *judge(Died const &d, bool fires, bool active, std::string const &file, int line, std::string const &msg) {
    auto out = [&](char const *m) { why = std::string(m) + "; standard error: " + d.err.substr(0, 400); return why.c_str(); };
    if (!active) {
        if (!d.clean) return out("compiled out, but the program did not go on");
        if (d.err != "after") return out("compiled out, but something was evaluated or written");
        return nullptr;
    }
    if (!fires) {
        if (!d.clean) return out("the condition is false, but the program did not go on");
        if (d.err != "!after") return out("the condition is false, but something was written or it was not evaluated once");
        return nullptr;
    }
    if (!d.aborted) return out("the condition is true, but the program was not aborted");
    if (d.err.substr(0, 1) != "!" || d.err.substr(1, 1) == "!") return out("the condition was not evaluated once");
    std::string e = d.err.substr(1);
    if (e.compare(0, 7, "[ERROR]")) return out("no error tag at the start");
    if (e.size() < msg.size() || e.compare(e.size() - msg.size(), msg.size(), msg)) return out("does not end with the message");
    e.resize(e.size() - msg.size());
    std::size_t at = 7;
    for (std::string const &part : {file, std::to_string(line), func}) {
        auto f = e.find(part, at);
        if (f == std::string::npos) return out(("file, line or function missing: " + part).c_str());
        at = f + part.size();
    }
    if (at != e.size()) return out("something else stands between the function and the message");
    return nullptr;
}
'''
# the condition announces itself: it writes how often it was evaluated
COND = ['seen(%s)', '!seen(!%s)', 'seen(%s) == true', '(seen(%s), %s)', 'seen(%s) && %s', 'not seen(not %s)', 'seen(%s) ? 1 : 0',
        '[&] { return seen(%s); }()', 'false || seen(%s)', 'static_cast<int>(seen(%s)) << 8', 'int(seen(%s)) & 1', '!seen(%s) == !1']


def quote(s):
    return s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')


def text(c, fmt):
    out = ''
    for _ in range(c.length(3, 8)):
        p = c.pick(['index ', '\n', ' is out of ', '"x"', '\\', '%', '0', 's', 'd', '\n---\n', '{}'])
        if p == '%' and fmt:
            p = '%%'
        out += p
    return out


def message(c):
    """(rest of the macro's arguments, what is printed)"""
    kind = c.weighted([2, 3, 6])
    if kind == 0:
        return '', ''
    if kind == 1:
        t = text(c, True)
        return ', "%s"' % quote(t), t.replace('%%', '%')
    f, want, args = '', '', []
    for _ in range(1 + c.below(7)):
        t = text(c, True)
        f, want = f + t, want + t.replace('%%', '%')
        a = c.below(6)
        if a == 0:
            v = c.below(2000000) - 1000000
            f, want = f + '%d', want + str(v)
            args.append(c.pick(['%d', '(%d)', 'int{%d}', '[]{ return %d; }()']) % v)
        elif a == 1:
            v = c.bits(64)
            f, want = f + '%lu', want + str(v)
            args.append('%dul' % v)
        elif a == 2:
            v = text(c, False)
            f, want = f + '%s', want + v
            args.append(c.pick(['"%s"', 'std::string("%s").c_str()']) % quote(v))
        elif a == 3:
            v = c.below(100000)
            f, want = f + '%.2f', want + '%.2f' % (v / 4.0)
            args.append('%d / 4.0' % v)
        elif a == 4:
            v = chr(97 + c.below(26))
            f, want = f + '%c', want + v
            args.append("'%s'" % v)
        else:
            w, v = c.below(12), c.below(100000)
            f, want = f + '%*x', want + '%*x' % (w, v)
            args += ['%d' % w, '%du' % v]
    fl = '"%s"' % quote(f)
    if c.chance(20):                     # a literal in pieces
        fl = '"" ' + fl + ' ""'
    return ', %s, %s' % (fl, ', '.join(args)), want


# where the check stands: text with BODY, and how to call it with V standing for the value of the condition
PLACES = [('inline void f(bool v) { BODY }', 'f(V)'),
          ('inline int f(bool v, int = 3, char const * = "") { BODY return 0; }', 'f(V)'),
          ('template <typename T> void f(T v) { BODY }', 'f(V)'),
          ('template <typename T, int N> void f(bool v) { BODY }', 'f<int, 7>(V)'),
          ('struct S { void f(bool v) const noexcept { BODY } };', 'S{}.f(V)'),
          ('struct S { explicit S(bool v) { BODY } };', 'S s(V)'),
          ('struct S { bool v; ~S() { BODY } };', '{ S s{V}; }'),
          ('template <typename T> struct S { static bool f(bool v) { BODY return v; } };', 'S<char>::f(V)'),
          ('struct S { bool operator()(bool v, ...) { BODY return v; } };', 'S{}(V)'),
          ('struct S { S &operator+=(bool v) { BODY return *this; } };', 'S s; s += V'),
          ('inline void f(bool v) { auto l = [&] { BODY }; l(); }', 'f(V)'),
          ('inline void f(bool v) { auto l = [](auto v) { BODY }; l(v); }', 'f(V)'),
          ('namespace deep::er { inline void f(bool v) { if (true) BODY } }', 'deep::er::f(V)'),
          ('inline void f(bool v) { for (int i = 0; i < 1; ++i) BODY }', 'f(V)'),
          ('inline void f(bool v) { try { BODY } catch (...) {} }', 'f(V)'),
          ('inline void f(bool v) { switch (1) { case 1: BODY } }', 'f(V)')]


def gen(debug, ndebug):
    def g(c):
        k = Case()
        fires = not c.chance(30)
        active = not (debug and ndebug)
        macro = 'UTILS_DEBUG_ABORT_IF' if debug else 'UTILS_ABORT_IF'
        rest, want = message(c)
        cond = c.pick(COND)
        negated = cond.endswith('!1')
        cond = cond.replace('%s', 'v')
        if negated:
            cond = 'seen(v) == !!1'
        place, call = c.pick(PLACES)
        line = c.pick([1, 7, 99, 100, 1000, 32767, 65536]) + c.below(1000)
        file = c.pick(['a.cpp', 'dir/sub dir/b.hpp', 'x%sy.cpp', '100%d.cpp', 'a%%b.cpp', '%n', 'n.cpp', 'back\\\\slash.h', 'long' * 40 + '.cpp'])
        stmt = '%s(%s%s);' % (macro, cond, rest)
        if 'if (true) BODY' in place or '++i) BODY' in place:
            # the check is the only statement it governs; its function's name is taken by a statement before it
            body = place.replace('{ if (true)', '{ func = UTILS_FUNC; if (true)').replace('{ for (', '{ func = UTILS_FUNC; for (').replace('BODY', stmt)
        else:
            body = place.replace('BODY', 'func = UTILS_FUNC; ' + stmt)
        k.decl('#line %d "%s"\n%s' % (line, file, body))
        k.decl('#line 1 "rest"')
        # the function's name becomes known by a call which does not fire, in this process
        k.run('{ bool V_ = false; (void)V_; %s; }' % call.replace('V', 'false'))
        k.run('{ Died d = in_child([] { child = true; %s; say("after"); });' % call.replace('V', 'true' if fires else 'false'))
        k.run('const char *m = judge(d, %s, %s, "%s", %d, "%s"); if (m) return m; }' % (
            'true' if fires else 'false', 'true' if active else 'false', file, line, quote(want)))
        k.trace = '%s in %s' % (stmt[:200], place[:60])
        k.label('fires', fires)
        k.label('percent in the file name', '%' in file)
        k.nontrivial = fires and active and bool(rest) or (not active)
        return k
    return g


def targets():
    out = []
    for cxx, s in (('g++', ''), ('clang++', '_clang')):
        q = 1 if cxx == 'g++' else 0.25
        for name, debug, nd in (('located', False, False), ('located_ndebug', False, True), ('debug', True, False), ('debug_ndebug', True, True)):
            n = int((600 if name == 'located' else 240) * q)
            out.append(Target(name + s, 'a check in a generated function, file and line, with a generated condition and message%s%s; non-trivial: it fires with a message, or is compiled out' % (
                ', debug form' if debug else '', ', assertions off' if nd else ''), n, n * 40, gen(debug, nd), batch=30, preamble=PRE,
                flags=['-DNDEBUG'] if nd else [], runs=True, cxx=cxx))
    return out


TARGETS = targets()
