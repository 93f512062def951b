// Choice-sequence property-based testing engine.
//
// A test case is the sequence of bounded integers its generator draws. Random cases draw them from a
// PRNG seeded by (seed, target, case index); replay and shrinking feed an explicit list (0 beyond its end).
// Cases run in forked workers: an abort, a sanitizer report, a signal or more than kCaseCpuSeconds of CPU
// time is the verdict of the case that was running.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{
using u64 = std::uint64_t;
using u128 = unsigned __int128;
using i128 = __int128;
constexpr int kCaseCpuSeconds = 20;

inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 hash_str(const char *s)
{
    u64 h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

struct Rng
{
    u64 s;
    u64 next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

struct Fail
{
    std::string msg;
};

inline std::string vfmt(const char *f, va_list ap)
{
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    return s;
}

// shared with the parent while a single case runs (shrinking, replay, samples)
struct Shm1
{
    u64 ndraws;
    u64 draws[1 << 16];
    char msg[4096];
    char trace[1 << 16];
    u64 ntrace;
    int status;  // 0 running, 1 ok, 2 failed
    int nontrivial;
};

constexpr int kMaxLabels = 96;
struct alignas(64) ShmW
{
    u64 cur;
    u64 done;
    u64 nontrivial;
    u64 draws;
    int failed;
    int finished;
    char msg[4096];
    u64 label_count[kMaxLabels];
};
struct alignas(64) ShmLabels
{
    volatile int stop;
};

class Ctx
{
   public:
    // --- drawing -------------------------------------------------------
    u64 below(u64 n)  // uniform in [0, n); n == 0 means all 64-bit values
    {
        u64 v;
        if (mode_ == kRandom)
        {
            v = rng_.next();
            if (n) v %= n;
        }
        else if (mode_ == kReplay)
        {
            v = pos_ < in_->size() ? (*in_)[pos_] : 0;
            if (n && v >= n) v = n - 1;
        }
        else
        {
            int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
            v = 0;
            for (int i = 0; i < nb; ++i)
            {
                v = (v << 8) | (bpos_ < blen_ ? bytes_[bpos_] : 0);
                ++bpos_;
            }
            if (n) v %= n;
        }
        ++pos_;
        hash_ = mix64(hash_ ^ v) + pos_;
        if (shm_ && shm_->ndraws < sizeof(shm_->draws) / sizeof(u64)) shm_->draws[shm_->ndraws++] = v;
        return v;
    }
    bool exhausted() const
    {
        return (mode_ == kReplay && pos_ >= in_->size()) || (mode_ == kBytes && bpos_ >= blen_);
    }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }  // inclusive
    long long srange(long long lo, long long hi) { return lo + (long long)below((u64)(hi - lo) + 1); }
    bool chance(unsigned percent) { return below(100) >= 100 - percent; }  // 0 -> false
    // continue flag for variable-length sequences; avg length about `avg`
    bool more(unsigned avg, std::size_t have, std::size_t max)
    {
        if (have >= max) return false;
        return below(avg + 1) != 0 && !(mode_ == kBytes && bpos_ >= blen_);
    }
    std::size_t weighted(std::initializer_list<unsigned> w)
    {
        u64 sum = 0;
        for (auto x : w) sum += x;
        u64 v = below(sum);
        std::size_t i = 0;
        for (auto x : w)
        {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    template <typename C>
    auto &pick(C &c)
    {
        return c[below(c.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    // value of `bits` bits with structure: small, near powers of two, all-ones runs, near maximum, uniform
    u64 bits(unsigned nbits)
    {
        const u64 mask = nbits >= 64 ? ~0ull : ((1ull << nbits) - 1);
        u64 v = 0;
        switch (weighted({4, 4, 4, 3, 2, 2}))
        {
            case 0: v = below(17); break;
            case 1: v = below(0); break;
            case 2:
            {
                u64 k = below(nbits);
                v = (1ull << k) + below(5) - 2;
                break;
            }
            case 3:
            {
                u64 hi = below(nbits), lo = below(hi + 1);
                u64 top = hi == 63 ? ~0ull : ((1ull << (hi + 1)) - 1);
                v = top & ~((1ull << lo) - 1);
                break;
            }
            case 4: v = mask - below(17); break;
            default:
            {
                u64 k = below(nbits) + 1;
                v = below(k >= 64 ? 0 : (1ull << k));
            }
        }
        return v & mask;
    }

    // --- observing -----------------------------------------------------
    bool verbose() const { return verbose_; }
    __attribute__((format(printf, 2, 3))) void trace(const char *f, ...)
    {
        if (!verbose_) return;
        va_list ap;
        va_start(ap, f);
        auto s = vfmt(f, ap);
        va_end(ap);
        if (shm_)
        {
            std::size_t room = sizeof(shm_->trace) - 1 - shm_->ntrace;
            std::size_t n = std::min(room, s.size());
            memcpy(shm_->trace + shm_->ntrace, s.data(), n);
            shm_->ntrace += n;
            if (shm_->ntrace < sizeof(shm_->trace) - 1) shm_->trace[shm_->ntrace++] = ';';
        }
    }
    void label(const char *name, bool on = true)
    {
        if (on) labels_.insert(name);
    }
    void nontrivial(bool on = true) { nontrivial_ = nontrivial_ || on; }
    __attribute__((format(printf, 2, 3))) void fail(const char *f, ...)
    {
        va_list ap;
        va_start(ap, f);
        auto s = vfmt(f, ap);
        va_end(ap);
        throw Fail{s};
    }
    // for callbacks from which no exception may leave
    __attribute__((format(printf, 2, 3))) void defer_fail(const char *f, ...)
    {
        va_list ap;
        va_start(ap, f);
        auto s = vfmt(f, ap);
        va_end(ap);
        if (deferred_.empty()) deferred_ = s;
    }
    void raise_deferred()
    {
        if (!deferred_.empty()) throw Fail{deferred_};
    }

    enum Mode
    {
        kRandom,
        kReplay,
        kBytes
    };
    Mode mode_ = kRandom;
    Rng rng_{0};
    const std::vector<u64> *in_ = nullptr;
    const std::uint8_t *bytes_ = nullptr;
    std::size_t blen_ = 0, bpos_ = 0;
    std::size_t pos_ = 0;
    u64 hash_ = 0;
    Shm1 *shm_ = nullptr;
    bool verbose_ = false;
    bool nontrivial_ = false;
    std::set<const char *> labels_;
    std::string deferred_;
};

#define PBT_CHECK(c, cond, ...)                                              \
    do                                                                       \
    {                                                                        \
        if (!(cond)) (c).fail("%s [%s]", pbt::fmt(__VA_ARGS__).c_str(), #cond); \
    } while (0)

struct Target
{
    const char *name;
    const char *rule;
    u64 quick;     // cases per flavour, quick tier
    u64 thorough;  // cases per flavour, thorough tier
    void (*fn)(Ctx &);
    bool fuzzable;
};
inline std::vector<Target> &targets()
{
    static std::vector<Target> t;
    return t;
}
struct Reg
{
    Reg(Target t) { targets().push_back(t); }
};
#define PBT_TARGET_(name, rule, quick, thorough, fz)                     \
    static void pbt_fn_##name(pbt::Ctx &);                                \
    static pbt::Reg pbt_reg_##name{{#name, rule, quick, thorough, pbt_fn_##name, fz}}; \
    static void pbt_fn_##name([[maybe_unused]] pbt::Ctx &c)
#define PBT_TARGET(name, quick, thorough, rule) PBT_TARGET_(name, rule, quick, thorough, true)
#define PBT_TARGET_NOFUZZ(name, quick, thorough, rule) PBT_TARGET_(name, rule, quick, thorough, false)

inline void arm_cpu_timer(int seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

// runs one case; true if it passed
inline bool run_case(const Target &t, Ctx &c, std::string &msg)
{
    try
    {
        t.fn(c);
        c.raise_deferred();
        return true;
    }
    catch (const Fail &f)
    {
        msg = f.msg;
    }
    catch (const std::exception &e)
    {
        msg = std::string("unexpected exception: ") + e.what();
    }
    return false;
}

// --- death helper ---------------------------------------------------------
struct Death
{
    bool aborted = false;
    bool clean = false;
    std::string err;
    std::string how;
};
// Runs fn in a child process, stderr captured. clean: fn returned.
template <typename F>
Death in_child(F &&fn, bool quiet_stdout = true)
{
    int p[2];
    if (pipe(p)) throw Fail{"pipe failed"};
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw Fail{"fork failed"};
    if (pid == 0)
    {
        close(p[0]);
        dup2(p[1], 2);
        if (quiet_stdout)
        {
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
        }
        arm_cpu_timer(kCaseCpuSeconds / 2);
        signal(SIGABRT, SIG_DFL);
        fn();
        fflush(stderr);
        _exit(0);
    }
    close(p[1]);
    Death d;
    char buf[4096];
    for (;;)
    {
        ssize_t n = read(p[0], buf, sizeof buf);
        if (n > 0)
            d.err.append(buf, n);
        else if (n == 0 || errno != EINTR)
            break;
    }
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    d.clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    d.aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
    d.how = WIFSIGNALED(st) ? fmt("signal %d", WTERMSIG(st)) : fmt("exit %d", WEXITSTATUS(st));
    return d;
}

// --- single forked run ------------------------------------------------------
struct Result
{
    bool ok = false;
    std::string msg;
    std::string trace;
    std::vector<u64> draws;
    bool nontrivial = false;
};

inline Shm1 *shm1()
{
    static Shm1 *s =
        (Shm1 *)mmap(nullptr, sizeof(Shm1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return s;
}

inline std::string err_tail(const std::string &path)
{
    std::ifstream f(path);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    // prefer the line naming the error
    for (const char *k : {"runtime error:", "ERROR: AddressSanitizer", "Assertion", "terminate called", "reason:"})
    {
        auto p = s.find(k);
        if (p != std::string::npos)
        {
            auto b = s.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            auto e = s.find('\n', p);
            return s.substr(b, std::min<std::size_t>(e == std::string::npos ? s.size() - b : e - b, 400));
        }
    }
    if (s.size() > 300) s = s.substr(s.size() - 300);
    for (auto &ch : s)
        if (ch == '\n') ch = ' ';
    return s;
}

inline std::string exit_text(int st)
{
    if (WIFSIGNALED(st))
    {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF) return "did not terminate (CPU limit)";
        return fmt("killed by signal %d (%s)", sg, strsignal(sg));
    }
    return fmt("exited with status %d", WEXITSTATUS(st));
}

inline std::string tmp_base()
{
    const char *d = getenv("PBT_TMP");
    return d ? d : "/tmp";
}

inline Result run_forked(const Target &t, const std::function<void(Ctx &)> &setup, bool verbose)
{
    Shm1 *s = shm1();
    s->ndraws = 0;
    s->msg[0] = 0;
    s->ntrace = 0;
    s->status = 0;
    s->nontrivial = 0;
    std::string errp = tmp_base() + fmt("/pbt-err-%d-1", (int)getpid());
    fflush(stdout);
    fflush(stderr);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        int fd = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        arm_cpu_timer(kCaseCpuSeconds);
        Ctx c;
        c.shm_ = s;
        c.verbose_ = verbose;
        setup(c);
        std::string msg;
        bool ok = run_case(t, c, msg);
        snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
        s->nontrivial = c.nontrivial_;
        s->status = ok ? 1 : 2;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    Result r;
    r.draws.assign(s->draws, s->draws + s->ndraws);
    r.trace.assign(s->trace, s->ntrace);
    r.nontrivial = s->nontrivial;
    if (s->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0)
        r.ok = true;
    else if (s->status == 2)
        r.msg = s->msg;
    else
        r.msg = exit_text(st) + ": " + err_tail(errp);
    unlink(errp.c_str());
    return r;
}
inline Result run_draws(const Target &t, const std::vector<u64> &d, bool verbose = false)
{
    return run_forked(
        t,
        [&](Ctx &c)
        {
            c.mode_ = Ctx::kReplay;
            c.in_ = &d;
        },
        verbose);
}
inline void seed_case(Ctx &c, const Target &t, u64 seed, u64 index)
{
    c.mode_ = Ctx::kRandom;
    c.rng_.s = mix64(mix64(seed * 0x9e3779b97f4a7c15ull + 1) ^ hash_str(t.name)) ^ mix64(index + 0x1234567);
    c.hash_ = 0;
}

inline double now_s()
{
    timespec ts;
    ::clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::vector<u64> shrink(const Target &t, std::vector<u64> best, std::string &msg, int budget, double secs)
{
    double end = now_s() + secs;
    auto fails = [&](const std::vector<u64> &d) -> bool
    {
        if (budget-- <= 0 || now_s() > end) return false;
        Result r = run_draws(t, d);
        if (r.ok) return false;
        auto u = r.draws;
        while (!u.empty() && u.back() == 0) u.pop_back();
        // shortlex order decides
        if (u.size() < best.size() || (u.size() == best.size() && u < best))
        {
            best = u;
            msg = r.msg;
            return true;
        }
        return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && budget > 0 && now_s() < end)
    {
        progress = false;
        for (std::size_t k : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1})
        {
            for (long i = (long)best.size() - (long)k; i >= 0 && budget > 0; --i)
            {
                if ((std::size_t)i + k > best.size()) continue;
                auto d = best;
                d.erase(d.begin() + i, d.begin() + i + k);
                if (fails(d))
                {
                    progress = true;
                    i = std::min<long>(i, (long)best.size() - (long)k + 1);
                }
            }
        }
        for (std::size_t i = 0; i < best.size() && budget > 0; ++i)
        {
            if (best[i] == 0) continue;
            auto d = best;
            d[i] = 0;
            if (fails(d))
            {
                progress = true;
                continue;
            }
            u64 lo = 0, hi = i < best.size() ? best[i] : 0;
            for (int it = 0; it < 64 && hi - lo > 1 && i < best.size(); ++it)
            {
                u64 mid = lo + (hi - lo) / 2;
                d = best;
                d[i] = mid;
                if (fails(d))
                {
                    progress = true;
                    hi = i < best.size() ? best[i] : 0;
                }
                else
                    lo = mid;
                if (it > 12 && hi - lo > 100000) break;
            }
        }
    }
    return best;
}

inline std::string json_str(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += (char)ch;
        }
        else if (ch < 0x20 || ch >= 0x7f)
            o += fmt("\\u%04x", ch);
        else
            o += (char)ch;
    }
    return o + "\"";
}

// Cases first, first + step, ..., last in one process; used when a case fails only after others before it.
inline Result run_stream(const Target &t, u64 seed, u64 first, u64 step, u64 last)
{
    return run_forked(
        t,
        [&](Ctx &c)
        {
            std::string msg;
            for (u64 i = first; i < last; i += step)
            {
                arm_cpu_timer(kCaseCpuSeconds);
                Ctx d;
                seed_case(d, t, seed, i);
                run_case(t, d, msg);
            }
            arm_cpu_timer(kCaseCpuSeconds);
            seed_case(c, t, seed, last);
        },
        true);
}

struct RunStats
{
    u64 evaluations = 0, nontrivial = 0, distinct = 0;
    std::map<std::string, u64> labels;
    std::vector<std::string> samples;
    bool failed = false;
    bool flaky = false;
    std::string msg, trace;
    std::vector<u64> draws;
    u64 index = 0;
    std::string note;
    std::string stream;
};

inline RunStats run_target(const Target &t, u64 seed, u64 ncases, int workers)
{
    RunStats rs;
    std::size_t sz = sizeof(ShmLabels) + sizeof(ShmW) * workers;
    char *base = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *g = (ShmLabels *)base;
    auto *sw = (ShmW *)(base + sizeof(ShmLabels));
    // label names are interned by the workers in files
    std::string tb = tmp_base() + fmt("/pbt-%d-%s", (int)getpid(), t.name);
    std::vector<pid_t> pids;
    fflush(stdout);
    fflush(stderr);
    for (int w = 0; w < workers; ++w)
    {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            int fd = open((tb + fmt("-err%d", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            std::map<std::string, u64> labels;
            std::vector<u64> hashes;
            for (u64 i = w; i < ncases; i += workers)
            {
                if (g->stop) break;
                sw[w].cur = i;
                arm_cpu_timer(kCaseCpuSeconds);
                Ctx c;
                seed_case(c, t, seed, i);
                std::string msg;
                bool ok = run_case(t, c, msg);
                ++sw[w].done;
                sw[w].draws += c.pos_;
                if (c.nontrivial_)
                {
                    ++sw[w].nontrivial;
                    hashes.push_back(c.hash_);
                }
                for (auto l : c.labels_) ++labels[l];
                if (!ok)
                {
                    sw[w].failed = 1;
                    snprintf(sw[w].msg, sizeof sw[w].msg, "%s", msg.c_str());
                    g->stop = 1;
                    break;
                }
            }
            arm_cpu_timer(0);
            std::ofstream hf(tb + fmt("-h%d", w), std::ios::binary);
            hf.write((const char *)hashes.data(), hashes.size() * 8);
            hf.close();
            std::ofstream lf(tb + fmt("-l%d", w));
            for (auto &kv : labels) lf << kv.second << " " << kv.first << "\n";
            lf.close();
            sw[w].finished = 1;
            _exit(0);
        }
        pids.push_back(pid);
    }
    int failw = -1;
    for (int k = 0; k < workers; ++k)
    {
        int st = 0;
        pid_t pid;
        while ((pid = waitpid(-1, &st, 0)) < 0 && errno == EINTR)
            ;
        int w = (int)(std::find(pids.begin(), pids.end(), pid) - pids.begin());
        if (w >= workers)
        {
            --k;
            continue;
        }
        if (!sw[w].finished && !sw[w].failed)
        {
            sw[w].failed = 1;
            snprintf(sw[w].msg, sizeof sw[w].msg, "%s: %s", exit_text(st).c_str(),
                     err_tail(tb + fmt("-err%d", w)).c_str());
            g->stop = 1;
        }
    }
    std::vector<u64> all;
    for (int w = 0; w < workers; ++w)
    {
        rs.evaluations += sw[w].done;
        rs.nontrivial += sw[w].nontrivial;
        std::ifstream hf(tb + fmt("-h%d", w), std::ios::binary);
        u64 h;
        while (hf.read((char *)&h, 8)) all.push_back(h);
        std::ifstream lf(tb + fmt("-l%d", w));
        u64 n;
        std::string name;
        while (lf >> n && lf.ignore(1) && std::getline(lf, name)) rs.labels[name] += n;
        if (sw[w].failed && (failw < 0 || sw[w].cur < sw[failw].cur)) failw = w;
        for (auto x : {"-err", "-h", "-l"}) unlink((tb + fmt("%s%d", x, w)).c_str());
    }
    std::sort(all.begin(), all.end());
    rs.distinct = std::unique(all.begin(), all.end()) - all.begin();

    if (failw >= 0)
    {
        u64 idx = sw[failw].cur;
        rs.failed = true;
        rs.index = idx;
        rs.msg = sw[failw].msg;
        Result r;
        for (int k = 0; k < 5; ++k)
        {
            r = run_forked(
                t, [&](Ctx &c) { seed_case(c, t, seed, idx); }, false);
            if (!r.ok) break;
        }
        if (r.ok)
        {
            rs.note = "case fails only after the cases before it in the same process";
            int bad = 0;
            Result last;
            u64 step = workers, first = idx % workers;
            for (int k = 0; k < 3; ++k)
            {
                last = run_stream(t, seed, first, step, idx);
                bad += !last.ok;
            }
            if (bad == 3)
            {
                // fewest cases before it that still make it fail
                for (u64 n = 1; n < (idx - first) / step; n *= 2)
                {
                    Result q = run_stream(t, seed, idx - n * step, step, idx);
                    if (!q.ok && !run_stream(t, seed, idx - n * step, step, idx).ok)
                    {
                        first = idx - n * step;
                        last = q;
                        break;
                    }
                }
                rs.msg = last.msg;
                rs.trace = last.trace;
                rs.stream = fmt("%llu %llu %llu %llu", (unsigned long long)seed, (unsigned long long)first,
                                (unsigned long long)step, (unsigned long long)idx);
            }
            else
                rs.flaky = true;
        }
        else
        {
            rs.msg = r.msg;
            rs.draws = shrink(t, r.draws, rs.msg, 4000, 60);
            int bad = 0;
            Result last;
            for (int k = 0; k < 3; ++k)
            {
                last = run_draws(t, rs.draws, true);
                bad += !last.ok;
            }
            if (bad < 3)
            {
                rs.draws = r.draws;
                bad = 0;
                for (int k = 0; k < 6; ++k)
                {
                    last = run_draws(t, rs.draws, true);
                    bad += !last.ok;
                }
                if (bad == 0) rs.flaky = true;
                rs.note = fmt("reproduced %d of 6", bad);
            }
            if (!last.ok) rs.msg = last.msg;
            rs.trace = last.trace;
        }
    }
    else
    {
        for (u64 i = 0, k = 0; i < 60 && k < 3 && i < ncases; ++i)
        {
            Result r = run_forked(
                t, [&](Ctx &c) { seed_case(c, t, seed, i); }, true);
            if (r.ok && r.nontrivial && r.trace.size() > 10)
            {
                rs.samples.push_back(r.trace.substr(0, 500));
                ++k;
            }
        }
    }
    munmap(base, sz);
    return rs;
}

inline const Target *find_target(const std::string &n)
{
    for (auto &t : targets())
        if (n == t.name) return &t;
    return nullptr;
}

inline std::vector<u64> parse_draws(const std::string &path)
{
    std::ifstream f(path);
    std::string line;
    std::vector<u64> d;
    while (std::getline(f, line))
    {
        if (line.rfind("draws:", 0) == 0)
        {
            std::stringstream ss(line.substr(6));
            u64 v;
            while (ss >> v) d.push_back(v);
        }
    }
    return d;
}

#ifndef PBT_FUZZER
inline int pbt_main(int argc, char **argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    u64 seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    int workers = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    bool thorough = a["--tier"] == "thorough";
    double scale = a.count("--scale") ? atof(a["--scale"].c_str()) : 1;
    if (a.count("--list"))
    {
        for (auto &t : targets()) printf("%s %d\n", t.name, (int)t.fuzzable);
        return 0;
    }
    if (a.count("--replay"))
    {
        const Target *t = find_target(a["--target"]);
        if (!t) return 2;
        Result r;
        std::ifstream sf(a["--replay"]);
        std::string line;
        unsigned long long q[4] = {0, 0, 0, 0};
        bool stream = false;
        while (std::getline(sf, line))
            if (line.rfind("stream:", 0) == 0)
                stream = sscanf(line.c_str() + 7, "%llu %llu %llu %llu", q, q + 1, q + 2, q + 3) == 4;
        if (stream)
            r = run_stream(*t, q[0], q[1], q[2], q[3]);
        else
            r = run_draws(*t, parse_draws(a["--replay"]), true);
        printf("%s\nmessage: %s\ntrace: %s\n", r.ok ? "PASS" : "FAIL", r.msg.c_str(), r.trace.c_str());
        return r.ok ? 0 : 1;
    }
    if (a.count("--bytes"))  // a libFuzzer artifact: report and shrink it like a generated case
    {
        const Target *t = find_target(a["--target"]);
        std::ifstream f(a["--bytes"], std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        std::string b = ss.str();
        Result r = run_forked(
            *t,
            [&](Ctx &c)
            {
                c.mode_ = Ctx::kBytes;
                c.bytes_ = (const std::uint8_t *)b.data();
                c.blen_ = b.size();
            },
            true);
        if (r.ok)
        {
            printf("PASS\n");
            return 0;
        }
        std::string msg = r.msg;
        auto d = shrink(*t, r.draws, msg, 4000, 60);
        Result l = run_draws(*t, d, true);
        printf("FAIL\nmessage: %s\ntrace: %s\ndraws:", (l.ok ? r : l).msg.c_str(), (l.ok ? r : l).trace.c_str());
        for (auto v : (l.ok ? r.draws : d)) printf(" %llu", (unsigned long long)v);
        printf("\n");
        return 1;
    }
    FILE *out = a.count("--out") ? fopen(a["--out"].c_str(), "w") : stdout;
    fprintf(out, "[\n");
    bool first = true;
    int rc = 0;
    for (auto &t : targets())
    {
        if (a.count("--target") && a["--target"] != t.name) continue;
        u64 n = thorough ? t.thorough : t.quick;
        n = (u64)(n * scale);
        if (n < 1) n = 1;
        double t0 = now_s();
        RunStats rs = run_target(t, seed, n, workers);
        double dt = now_s() - t0;
        fprintf(out, "%s{\"target\":%s,\"rule\":%s,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"wall_s\":%.3f,",
                first ? "" : ",\n", json_str(t.name).c_str(), json_str(t.rule).c_str(),
                (unsigned long long)rs.evaluations, (unsigned long long)rs.nontrivial,
                (unsigned long long)rs.distinct, dt);
        first = false;
        fprintf(out, "\"labels\":{");
        bool f2 = true;
        for (auto &kv : rs.labels)
        {
            fprintf(out, "%s%s:%llu", f2 ? "" : ",", json_str(kv.first).c_str(), (unsigned long long)kv.second);
            f2 = false;
        }
        fprintf(out, "},\"samples\":[");
        f2 = true;
        for (auto &s : rs.samples)
        {
            fprintf(out, "%s%s", f2 ? "" : ",", json_str(s).c_str());
            f2 = false;
        }
        fprintf(out, "],\"failed\":%s,\"flaky\":%s,\"index\":%llu,\"msg\":%s,\"trace\":%s,\"note\":%s,\"stream\":%s,\"draws\":[",
                rs.failed ? "true" : "false", rs.flaky ? "true" : "false", (unsigned long long)rs.index,
                json_str(rs.msg).c_str(), json_str(rs.trace.substr(0, 4000)).c_str(), json_str(rs.note).c_str(), json_str(rs.stream).c_str());
        for (std::size_t i = 0; i < rs.draws.size(); ++i)
            fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)rs.draws[i]);
        fprintf(out, "]}");
        fflush(out);
        if (rs.failed && !rs.flaky)
        {
            rc = 1;
            break;
        }
    }
    fprintf(out, "\n]\n");
    if (out != stdout) fclose(out);
    return rc;
}
#define PBT_MAIN \
    int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); }
#else
#define PBT_MAIN                                                                          \
    extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t *data, std::size_t size)       \
    {                                                                                     \
        static const pbt::Target *t = pbt::find_target(getenv("PBT_FUZZ_TARGET"));          \
        pbt::Ctx c;                                                                       \
        c.mode_ = pbt::Ctx::kBytes;                                                       \
        c.bytes_ = data;                                                                  \
        c.blen_ = size;                                                                   \
        std::string msg;                                                                  \
        if (!pbt::run_case(*t, c, msg))                                                   \
        {                                                                                 \
            fprintf(stderr, "PROPERTY FAILED: %s\n", msg.c_str());                         \
            abort();                                                                      \
        }                                                                                 \
        return 0;                                                                         \
    }
#endif
}  // namespace pbt

#if defined(__SANITIZE_THREAD__)
extern "C" __attribute__((used, weak, visibility("default"))) const char *__tsan_default_options()
{
    return "halt_on_error=1:symbolize=0:exitcode=66";   // the verdict of the case whose threads raced
}
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_SAN)
extern "C" __attribute__((used, weak, visibility("default"))) const char *__asan_default_options()
{
    return "detect_leaks=0:symbolize=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:"
           "detect_stack_use_after_return=0:exitcode=99";
}
extern "C" __attribute__((used, weak, visibility("default"))) const char *__ubsan_default_options()
{
    return "print_stacktrace=0:symbolize=0";
}
#endif
