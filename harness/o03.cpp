#include <utils/common.h>

#include <cstdarg>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"
using namespace pbt;

namespace
{
// ---- a format with the arguments it needs
enum Kind
{
    kInt,
    kLong,
    kDouble,
    kStr
};
struct Arg
{
    Kind k;
    long i;
    double d;
    std::string s;
};

// calls `f` with the arguments as a C argument list
template <typename F, typename... A>
void spread(const std::vector<Arg> &v, F &f, A... a)
{
    if constexpr (sizeof...(A) < 4)
    {
        if (sizeof...(A) < v.size())
        {
            const Arg &x = v[sizeof...(A)];
            switch (x.k)
            {
                case kInt: return spread(v, f, a..., static_cast<int>(x.i));
                case kLong: return spread(v, f, a..., x.i);
                case kDouble: return spread(v, f, a..., x.d);
                case kStr: return spread(v, f, a..., x.s.c_str());
            }
        }
    }
    f(a...);
}
std::string some_text(Ctx &c, bool in_format)
{
    std::string s;
    static const char *frag[] = {"index ", "%", "\n", "\t", "\"quoted\"", "\\", "{}", "\xc3\xa9", "[ERROR]", " ", "0", "s", "d", "n", "-"};
    for (unsigned i = 0; c.more(3, i, 12); ++i)
    {
        std::string f = frag[c.below(15)];
        if (in_format && f == "%") f = "%%";
        s += f;
    }
    if (c.chance(4)) s += std::string(c.pick({600u, 1023u, 1024u, 4095u, 4097u, 9000u, 70000u}), 'x');
    return s;
}
struct Message
{
    std::string format;
    std::vector<Arg> args;
};
Message some_message(Ctx &c)
{
    Message m;
    m.format = some_text(c, true);
    unsigned n = c.below(5);
    for (unsigned i = 0; i < n; ++i)
    {
        Arg a{static_cast<Kind>(c.below(4)), 0, 0, ""};
        static const char *fi[] = {"%d", "%u", "%x", "%08X", "%+5d", "%c", "%o", "%-4dx"};
        static const char *fl[] = {"%ld", "%lu", "%zu", "%lx", "%p", "%20ld"};
        static const char *fd[] = {"%f", "%g", "%e", "%.3f", "%10.2f"};
        static const char *fs[] = {"%s", "%10s", "%-8s", "%.4s"};
        switch (a.k)
        {
            case kInt:
            {
                unsigned w = c.below(8);
                a.i = static_cast<int>(c.bits(32));
                if (w == 5) a.i = 1 + (a.i & 0x7e);
                m.format += fi[w];
                break;
            }
            case kLong:
                a.i = static_cast<long>(c.bits(64));
                m.format += fl[c.below(6)];
                break;
            case kDouble:
                a.d = static_cast<double>(static_cast<int>(c.bits(32))) / (1 + c.below(1000));
                m.format += fd[c.below(5)];
                break;
            case kStr:
                a.s = some_text(c, false);
                m.format += fs[c.below(4)];
                break;
        }
        m.args.push_back(a);
        m.format += some_text(c, true);
    }
    return m;
}
__attribute__((format(printf, 1, 2))) std::string printed(const char *f, ...)
{
    va_list ap, aq;
    va_start(ap, f);
    va_copy(aq, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    va_end(ap);
    std::string s(static_cast<size_t>(n) + 1, '\0');
    vsnprintf(&s[0], s.size(), f, aq);
    va_end(aq);
    s.resize(static_cast<size_t>(n));
    return s;
}
std::string expected(const Message &m)
{
    std::string s;
    auto f = [&](auto... a)
    {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
        s = printed(m.format.c_str(), a...);
#pragma GCC diagnostic pop
    };
    spread(m.args, f);
    return s;
}
void judge(Ctx &c, bool fires, const Death &d, const std::string &want)
{
    if (fires)
    {
        PBT_CHECK(c, d.aborted, "the condition is true, but the process ended with %s instead of the abort signal", d.how.c_str());
        PBT_CHECK(c, d.err == want, "standard error holds %zu bytes [%.300s] instead of %zu bytes [%.300s]", d.err.size(), d.err.c_str(),
                  want.size(), want.c_str());
    }
    else
    {
        PBT_CHECK(c, d.clean, "the condition is false, but the process ended with %s [%.200s]", d.how.c_str(), d.err.c_str());
        PBT_CHECK(c, d.err == "continued", "the condition is false, but standard error holds [%.300s]", d.err.c_str());
    }
}
void go_on()
{
    ssize_t r = write(2, "continued", 9);
    (void)r;
}
}  // namespace

PBT_TARGET(messages, 7000, 400000,
           "a condition, a format of up to 4 conversions (int, long, double, text; text up to 70000 bytes) and its arguments; "
           "non-trivial: the condition holds and there are arguments")
{
    bool fires = c.chance(80);
    Message m = some_message(c);
    std::string want = expected(m);
    c.trace("condition %d, %zu arguments, format [%.100s]", fires, m.args.size(), m.format.c_str());
    Death d = in_child(
        [&]
        {
            auto f = [&](auto... a) { utils::abort_if(fires, m.format.c_str(), a...); };
            spread(m.args, f);
            go_on();
        });
    judge(c, fires, d, want);
    c.label("fires", fires);
    c.label("long message", want.size() > 1000);
    c.nontrivial(fires && !m.args.empty());
}

PBT_TARGET(conditions, 2500, 80000, "conditions of other types, no message or no arguments; non-trivial: neither bool nor the value 0 or 1")
{
    unsigned kind = c.below(6);
    uint64_t bits = c.bits(64);
    static int obj[4];
    double dbl = bits ? 1.0 / static_cast<double>(bits) : 0.0;
    int msg = static_cast<int>(c.below(4));
    std::string want = msg == 2 ? "plain text\n" : msg == 3 ? "100%" : "";
    auto call = [&](auto &&cond)
    {
        switch (msg)
        {
            case 0: return utils::abort_if(cond);
            case 1: return utils::abort_if(cond, nullptr);
            case 2: return utils::abort_if(cond, "plain text\n");
            default: return utils::abort_if(cond, "%d%%", 100);
        }
    };
    bool fires = false;
    Death d;
    switch (kind)
    {
        case 0: fires = bits & 1; d = in_child([&] { call((bits & 1) != 0); go_on(); }); break;
        case 1: fires = bits; d = in_child([&] { call(bits); go_on(); }); break;
        case 2: fires = static_cast<int>(bits << 8); d = in_child([&] { call(static_cast<int>(bits << 8)); go_on(); }); break;
        case 3: fires = bits; d = in_child([&] { call(dbl); go_on(); }); break;
        case 4: fires = bits % 3; d = in_child([&] { call(bits % 3 ? obj : nullptr); go_on(); }); break;
        default:
            fires = bits % 5;
            d = in_child(
                [&]
                {
                    call(std::integral_constant<bool, true>::value && bits % 5);
                    go_on();
                });
    }
    c.trace("kind %u value 0x%llx message %d", kind, (unsigned long long)bits, msg);
    judge(c, fires, d, want);
    c.nontrivial(kind && bits > 1);
}

PBT_TARGET(several, 1500, 60000, "several conditional aborts in a row; only the first whose condition holds may act; non-trivial: one does, not the first")
{
    unsigned n = 1 + c.below(8);
    std::vector<int> cond;
    for (unsigned i = 0; i < n; ++i) cond.push_back(c.chance(20));
    size_t first = n;
    for (size_t i = n; i--;)
        if (cond[i]) first = i;
    Death d = in_child(
        [&]
        {
            for (size_t i = 0; i < n; ++i) utils::abort_if(cond[i], "check %zu of %u failed\n", i, n);
            go_on();
        });
    c.trace("%u checks, the first which fires is %zu", n, first);
    judge(c, first < n, d, first < n ? printed("check %zu of %u failed\n", first, n) : "");
    c.nontrivial(first && first < n);
}
PBT_MAIN
