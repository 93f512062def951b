"""Generated C++ programs checked by the compiler (and, where they have statements, by running them).

A case is a piece of a program produced by a generator from a sequence of bounded integers, as in
harness/pbt.hpp. Its expectations (computed by a model in Python, never by the code under test) become
static_assert lines, or statements of a function which returns a message when it is not met. Many cases
share one translation unit; a translation unit which fails is narrowed down to a case, the case is shrunk
over its integers, and the replay file holds the smallest failing program.
"""
import hashlib
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

M64 = (1 << 64) - 1


def mix64(z):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)


class Ctx:
    def __init__(self, seed=None, draws=None):
        self.s, self.inp, self.draws = seed, draws, []

    def below(self, n):
        if self.inp is None:
            self.s = (self.s + 0x9e3779b97f4a7c15) & M64
            v = mix64(self.s) % n
        else:
            i = len(self.draws)
            v = self.inp[i] if i < len(self.inp) else 0
            if v >= n:
                v = n - 1
        self.draws.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, pct):
        return self.below(100) >= 100 - pct

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, w):
        v = self.below(sum(w))
        for i, x in enumerate(w):
            if v < x:
                return i
            v -= x
        return 0

    def length(self, avg, mx):
        n = 0
        while n < mx and self.below(avg + 1):
            n += 1
        return n

    def sample(self, seq, n):
        return [self.pick(seq) for _ in range(n)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def bits(self, nbits):
        """a value of nbits bits: small, near powers of two, runs of ones, near the maximum, uniform"""
        mask = (1 << nbits) - 1
        k = self.weighted([4, 4, 4, 3, 2, 2])
        if k == 0:
            v = self.below(17)
        elif k == 1:
            v = self.below(1 << 64)
        elif k == 2:
            v = (1 << self.below(nbits)) + self.below(5) - 2
        elif k == 3:
            hi = self.below(nbits)
            lo = self.below(hi + 1)
            v = ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
        elif k == 4:
            v = mask - self.below(17)
        else:
            v = self.below(1 << (self.below(nbits) + 1))
        return v & mask


class Case:
    def __init__(self):
        self.decls, self.checks, self.stmts = [], [], []
        self.trace, self.nontrivial, self.labels = '', False, []
        self.bad = self.good = None

    def decl(self, s):
        self.decls.append(s)

    def check(self, expr, what=''):
        self.checks.append((expr, what))

    def run(self, s):
        self.stmts.append(s)

    def reject(self, bad, good):
        """`bad` must not compile; `good`, the nearest valid program, must."""
        self.bad, self.good = bad, good

    def label(self, s, on=True):
        if on:
            self.labels.append(s)

    def text(self):
        out = list(self.decls)
        for e, w in self.checks:
            assert '\n' not in e, e
            out.append('static_assert(%s, "%s");' % (e, w.replace('\\', '\\\\').replace('"', "'").replace('\n', ' ')))
        if self.stmts:
            out.append('inline const char *run() {')
            out += self.stmts
            out += ['return nullptr; }']
        return '\n'.join(out)

    def key(self):
        return hashlib.blake2b((self.text() + str(self.bad)).encode(), digest_size=8).digest()


class Target:
    def __init__(self, name, rule, quick, thorough, gen, batch=150, preamble='', flags=(), runs=False,
                 std='c++17', cxx='g++', reject=False):
        self.name, self.rule, self.quick, self.thorough, self.gen = name, rule, quick, thorough, gen
        self.batch, self.preamble, self.flags = batch, preamble, list(flags)
        self.runs, self.cxx, self.reject, self.std = runs, cxx, reject, std


def program(t, cases):
    """text of a translation unit and, per case, its first and last line"""
    lines = t.preamble.split('\n')
    spans = []
    for i, k in cases:
        a = len(lines) + 1
        lines.append('namespace c%d {' % i)
        lines += k.text().replace('@N@', str(i)).split('\n')   # @N@: a name of its own for each case
        lines.append('}')
        spans.append((a, len(lines), i))
    if t.runs:
        lines.append('#include <cstdio>')
        lines.append('int main() { int bad = 0; const char *m;')
        for i, k in cases:
            if k.stmts:
                lines.append('if ((m = c%d::run())) { std::printf("FAILED %d %%s\\n", m); std::fflush(stdout); bad = 1; }' % (i, i))
        lines.append('return bad; }')
    return '\n'.join(lines) + '\n', spans


class Tool:
    """compiles and runs texts; picklable"""

    def __init__(self, inc, tmp):
        self.inc, self.tmp = inc, tmp
        self.n = 0

    def compile(self, t, text, tag, run=None, extra=()):
        """(ok, output) of compiling and, for programs with statements, of running"""
        run = t.runs if run is None else run
        p = os.path.join(self.tmp, 'ct-%s-%d-%s.cpp' % (t.name, os.getpid(), tag))
        with open(p, 'w') as f:
            f.write(text)
        exe = p[:-4] + '.out'
        cmd = [t.cxx, '-std=' + t.std, '-w', '-fmax-errors=20' if t.cxx == 'g++' else '-ferror-limit=20'] + t.flags
        cmd += list(extra) + self.inc + ([p, '-o', exe] if run else ['-fsyntax-only', p])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               timeout=400, cwd=self.tmp)
            ok, out = r.returncode == 0, r.stdout
            if r.returncode and ('Killed' in out or 'out of memory' in out or 'internal compiler error' in out):
                ok, out = None, out
        except subprocess.TimeoutExpired:
            ok, out = None, 'compiler timeout'
        if ok and run:
            e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
            try:
                r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                                   timeout=400, cwd=self.tmp, env=e)
                if r.returncode:
                    ok, out = False, r.stdout + '\n(exit %d)' % r.returncode
            except subprocess.TimeoutExpired:
                ok, out = False, 'the program did not end'
        for x in (p, exe):
            if os.path.exists(x):
                os.unlink(x)
        return ok, out, p

    def judge(self, t, i, k, tag):
        """None if the case holds, else a message"""
        if t.reject:
            ok, out, _ = self.compile(t, t.preamble + '\n' + k.good + '\n', tag + 'g')
            if ok is None:
                return None
            if not ok:
                return 'the valid neighbour of an invalid program does not compile: ' + first_error(out)
            ok, out, _ = self.compile(t, t.preamble + '\n' + k.bad + '\n', tag + 'b')
            if ok:
                return 'a program that must be rejected compiles'
            return None
        text, _ = program(t, [(i, k)])
        ok, out, _ = self.compile(t, text, tag)
        return None if ok or ok is None else first_error(out)


def first_error(out):
    # a failed static_assert names what is wrong best
    ls = [l for l in out.splitlines() if 'static assertion failed' in l or 'FAILED' in l] or \
         [l for l in out.splitlines() if 'error' in l or 'runtime' in l or 'ERROR' in l]
    m = ls[0] if ls else out[-300:]
    nt = [l for l in out.splitlines() if 'reduces to' in l]
    return (m.strip() + (' ' + nt[0].strip() if nt else ''))[:600]


def case_seed(seed, t, i):
    h = int.from_bytes(hashlib.blake2b(t.name.encode(), digest_size=8).digest(), 'big')
    return mix64(mix64((seed * 0x9e3779b97f4a7c15 + 1) & M64) ^ h) ^ mix64(i + 0x1234567)


def make(t, c):
    return t.gen(c)


def work(args):
    """one translation unit: generate, compile, narrow down"""
    tool, t, seed, first, last = args
    cases, keys, labels, nt = [], set(), {}, 0
    for i in range(first, last):
        k = make(t, Ctx(case_seed(seed, t, i)))
        cases.append((i, k))
        if k.nontrivial:
            nt += 1
            keys.add(k.key())
        for l in set(k.labels):
            labels[l] = labels.get(l, 0) + 1
    res = dict(n=len(cases), keys=keys, labels=labels, nt=nt, failed=None, msg='', note='',
               samples=[k.trace for i, k in cases[:3] if k.nontrivial])
    if t.reject:
        for i, k in cases:
            m = tool.judge(t, i, k, 'r%d' % i)
            if m:
                res.update(failed=i, msg=m)
                break
        return res
    text, spans = program(t, cases)
    ok, out, path = tool.compile(t, text, 'u%d' % first)
    if ok:
        return res
    if ok is None:
        res['note'] = 'a translation unit was not decided: ' + out[-200:]
        return res
    base = os.path.basename(path)
    cand = []
    for m in re.finditer(r'FAILED (\d+) ', out):
        cand.append(int(m.group(1)))
    for m in re.finditer(re.escape(base) + r':(\d+)', out):
        ln = int(m.group(1))
        for a, b, i in spans:
            if a <= ln <= b:
                cand.append(i)
    seen = []
    for i in cand:
        if i not in seen:
            seen.append(i)
    by = dict(cases)
    for i in seen[:8]:
        m = tool.judge(t, i, by[i], 's%d' % i)
        if m:
            res.update(failed=i, msg=m)
            return res
    ok, out2, _ = tool.compile(t, program(t, [])[0], 'p%d' % first)
    if ok is False:
        res.update(failed=-1, msg='the public headers do not compile: ' + first_error(out2))
        return res
    # halve
    cur = cases
    while len(cur) > 1:
        h = len(cur) // 2
        for part in (cur[:h], cur[h:]):
            ok, o, _ = tool.compile(t, program(t, part)[0], 'h%d' % first)
            if ok is False:
                cur = part
                out = o
                break
        else:
            break
    if len(cur) == 1:
        res.update(failed=cur[0][0], msg=first_error(out))
    else:
        ok, out, _ = tool.compile(t, program(t, cur)[0], 'h%d' % first)
        if ok is False:
            res.update(failed=-2, msg=first_error(out), text=program(t, cur)[0])
        else:
            res['note'] = 'a translation unit failed once and compiled afterwards: ' + first_error(out)
    return res


def shrink(tool, t, draws, msg, secs=60):
    end = time.time() + secs
    best = list(draws)
    while best and best[-1] == 0:
        best.pop()

    def attempt(d, n):
        try:
            c = Ctx(draws=d)
            k = make(t, c)
        except Exception:
            return None
        m = tool.judge(t, 0, k, 'x%d' % n)
        if not m:
            return None
        u = c.draws
        while u and u[-1] == 0:
            u.pop()
        return (u, m) if (len(u), u) < (len(best), best) else None

    tried = set()
    with ThreadPoolExecutor(8) as ex:
        progress = True
        while progress and time.time() < end:
            progress = False
            cands = []
            for k in (32, 16, 8, 4, 3, 2, 1):
                for i in range(len(best) - k, -1, -max(1, k // 2)):
                    cands.append(best[:i] + best[i + k:])
            for k in (8, 4, 2, 1):
                for i in range(0, len(best) - k + 1, k):
                    if any(best[i:i + k]):
                        cands.append(best[:i] + [0] * k + best[i + k:])
            for i, v in enumerate(best):
                for w in (1, v // 2, v - 1):
                    if 0 <= w < v:
                        cands.append(best[:i] + [w] + best[i + 1:])
            cands = [x for x in cands if tuple(x) not in tried]
            for j in range(0, len(cands), 8):
                if time.time() > end:
                    break
                part = cands[j:j + 8]
                tried.update(tuple(x) for x in part)
                r = [x for x in ex.map(attempt, part, range(len(part))) if x]
                if r:
                    best, msg = min(r, key=lambda x: (len(x[0]), x[0]))
                    progress = True
                    break
    return best, msg


def write_replay(env, t, k, text, draws, msg):
    rp = os.path.join(env.replay_dir, '%s-%s.txt' % (env.pid, t.name))
    with open(rp, 'w') as f:
        f.write('property %s\nkind ct\nmodule %s\ntarget %s\n' % (env.pid, env.ct_module, t.name))
        f.write('expect %s\n' % ('rejected' if t.reject else 'runs' if t.runs else 'compiles'))
        f.write('command %s\n' % ' '.join([t.cxx, '-std=' + t.std, '-w'] + t.flags))
        f.write('draws %s\n' % ' '.join(map(str, draws)))
        f.write('message %s\ncase %s\n' % (msg.replace('\n', ' '), (k.trace if k else '').replace('\n', ' ')))
        f.write('-----\n' + text)
        if t.reject and k:
            f.write('----- must compile\n' + t.preamble + '\n' + k.good + '\n')
    return rp


def run(env, module, attr='TARGETS'):
    from run import Violation, includes, WORKERS
    env.ct_module = module.__name__
    tool = Tool(includes(), env.build)
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    for t in getattr(module, attr):
        n = max(1, int((t.thorough if env.tier == 'thorough' else t.quick) * scale))
        t0 = time.time()
        jobs = [(tool, t, env.seed, a, min(a + t.batch, n)) for a in range(0, n, t.batch)]
        rec = dict(target=t.name, rule=t.rule, flavour=t.cxx, evaluations=0, nontrivial=0, distinct=0, labels={},
                   samples=[], wall_s=0)
        env.records.append(rec)
        keys = set()
        bad = None
        global _MOD
        with mp.get_context('fork').Pool(WORKERS, initializer=_init, initargs=([t],)) as pool:
            for res in pool.imap(_work, [(tool, t.name, env.seed, j[3], j[4]) for j in jobs]):
                rec['evaluations'] += res['n']
                rec['nontrivial'] += res['nt']
                keys |= res['keys']
                for l, v in res['labels'].items():
                    rec['labels'][l] = rec['labels'].get(l, 0) + v
                if len(rec['samples']) < 3:
                    rec['samples'] += [s[:500] for s in res['samples'] if s]
                if res['note']:
                    env.notes.append('%s: %s' % (t.name, res['note']))
                if res['failed'] is not None:
                    bad = res
                    pool.terminate()
                    break
        rec['samples'] = rec['samples'][:3]
        rec['distinct'] = len(keys)
        rec['wall_s'] = time.time() - t0
        if bad:
            report(env, tool, t, bad)


_MOD = None


def _init(m):
    global _MOD
    _MOD = m


def _work(a):
    tool, name, seed, first, last = a
    t = [x for x in _MOD if x.name == name][0]
    return work((tool, t, seed, first, last))


def report(env, tool, t, res):
    from run import Violation
    i, msg = res['failed'], res['msg']
    if i < 0:
        text = res.get('text') or program(t, [])[0]
        bad = sum(tool.compile(t, text, 'v')[0] is False for _ in range(3))
        rp = write_replay(env, t, None, text, [], msg)
        if not bad:
            env.notes.append('%s: a failure did not reproduce: %s' % (t.name, msg))
            return
        raise Violation(rp, msg)
    c = Ctx(case_seed(env.seed, t, i))
    k = make(t, c)
    draws, msg = shrink(tool, t, c.draws, msg)
    k = make(t, Ctx(draws=draws))
    text = (t.preamble + '\n' + k.bad + '\n') if t.reject else program(t, [(0, k)])[0]
    ms = [tool.judge(t, 0, k, 'v') for _ in range(3)]
    rp = write_replay(env, t, k, text, draws, msg)
    if not any(ms):
        env.notes.append('%s: a failure did not reproduce: %s' % (t.name, msg))
        return
    raise Violation(rp, [m for m in ms if m][0], k.trace)


def replay(env, path):
    from run import includes
    tool = Tool(includes(), env.build)
    head, _, body = open(path).read().partition('\n-----\n')
    body, _, good = body.partition('----- must compile\n')
    h = {}
    for l in head.split('\n'):
        a, _, b = l.partition(' ')
        h.setdefault(a, b)
    cmd = h['command'].split()
    t = Target('replay', '', 0, 0, None, cxx=cmd[0], std=cmd[1][5:], flags=cmd[3:], runs=h['expect'] == 'runs')
    ok, out, _ = tool.compile(t, body, 'r')
    print(out[-3000:])
    if h['expect'] == 'rejected':
        return 1 if ok or tool.compile(t, good, 'g')[0] is False else 0
    return 0 if ok else 1
