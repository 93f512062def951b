#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough]   or   run.py --replay FILE

Exit 0: the property held on everything explored. Exit 1 with "VIOLATION property=<ID> replay=<path>"
otherwise. Everything is built from the current tree of /repo into /verif/.build.
"""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'sources/include')
sys.path.insert(0, os.path.join(HERE, 'ct'))
sys.path.insert(0, HERE)
WORKERS = 8
sys.modules.setdefault('run', sys.modules[__name__])
FLAVOURS = {
    'san': ['g++', '-std=c++17', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'rel': ['g++', '-std=c++17', '-O2', '-DNDEBUG'],
    'o3': ['g++', '-std=c++17', '-O3', '-DNDEBUG', '-march=x86-64-v2'],
    'dbg': ['g++', '-std=c++17', '-O0'],
    'tsan': ['g++', '-std=c++17', '-O1', '-fsanitize=thread'],
    'fuzz': ['clang++', '-std=c++17', '-O1', '-DPBT_FUZZER', '-DPBT_SAN',
             '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all'],
}
POOL = [('pool_inst.cpp', ['-DPART=%d' % k]) for k in range(7)]


def cpp(src, flavours=('san', 'rel'), extra=(), cflags=(), libs=(), scale=None, fuzz=True, wrap=None):
    return dict(kind='cpp', src=src, flavours=list(flavours), extra=list(extra), cflags=list(cflags),
                libs=list(libs), scale=scale or {}, fuzz=fuzz, wrap=wrap)


def ct(module, attr='TARGETS'):
    return dict(kind='ct', module=module, attr=attr)


PARTS = {
    'M01': [cpp('m01', extra=POOL)],
    'M02': [cpp('m02', extra=POOL)],
    'M03': [cpp('m03', extra=POOL)],
    'M04': [cpp('m04', extra=POOL)],
    'M05': [cpp('m05', extra=POOL)],
    'M06': [cpp('m06')],
    'M07': [cpp('m07', extra=['m07_tu.cpp'], flavours=('san', 'rel', 'tsan'), libs=['-lpthread'],
                scale=dict(tsan=0.1)),
            cpp('m07b', flavours=('rel', 'tsan'), libs=['-lpthread'], scale=dict(tsan=0.25), fuzz=False)],
    'M08': [cpp('m08'), ct('alloc_ct')],
    'M09': [cpp('m09', flavours=('san', 'rel', 'o3'), libs=[], wrap='free'), ct('m09_ct')],
    'A01': [cpp('a01'), ct('arith_ct', 'A01')],
    'A02': [cpp('a02'), ct('arith_ct', 'A02')],
    'A03': [cpp('a03'), ct('arith_ct', 'A03')],
    'A04': [cpp('a04'), ct('arith_ct', 'A04')],
    'A05': [ct('a05_ct')],
    'A06': [cpp('a06'), ct('arith_ct', 'A06'), ct('a06_ct')],
    'T01': [ct('tlist_ct', 'T01')],
    'T02': [ct('tlist_ct', 'T02')],
    'T03': [ct('vlist_ct')],
    'T04': [ct('ftraits_ct')],
    'T05': [ct('checkers_ct')],
    'T06': [ct('padding_ct')],
    'T07': [ct('small_ct')],
    'O02': [cpp('o02'), ct('timer_ct')],
    'O01': [cpp('o01'), ct('pimpl_ct')],
    'O03': [cpp('o03'), ct('o03_ct')],
    'O04': [cpp('o04', flavours=('dbg', 'rel'), fuzz=False), ct('o04_ct')],
    'H01': [dict(kind='own', module='h01_ct')],
}
TECH = {}


class Violation(Exception):
    def __init__(self, replay, message, detail=''):
        self.replay, self.message, self.detail = replay, message, detail


class Env:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.build = os.path.join(HERE, '.build', pid)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build)
        self.replay_dir = os.path.join(HERE, 'replay')
        os.makedirs(self.replay_dir, exist_ok=True)
        self.records = []          # per target statistics
        self.notes = []
        self.exhaustive = []

    def run(self, cmd, timeout=None, env=None, cwd=None):
        e = dict(os.environ)
        e['PBT_TMP'] = self.build
        e.pop('LD_PRELOAD', None)
        if env:
            e.update(env)
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                              timeout=timeout, env=e, cwd=cwd or self.build)


def toolchain_ok(env):
    p = os.path.join(env.build, 'probe.cpp')
    open(p, 'w').write('#include <vector>\nint main(){std::vector<int> v(1);return v[0];}\n')
    r = env.run(['g++', '-std=c++17', p, '-o', p + '.out'])
    return r.returncode == 0


def includes():
    return ['-I' + INC, '-I' + os.path.join(HERE, 'stub'), '-I' + os.path.join(HERE, 'harness')]


def build_cpp(env, part, flavours):
    """Compiles every flavour of a harness in parallel; a harness that no longer compiles is a violation."""
    jobs = []
    for fl in flavours:
        srcs = [(part['src'] + '.cpp', [])] + [x if isinstance(x, tuple) else (x, []) for x in part['extra']]
        for i, (s, fs) in enumerate(srcs):
            o = os.path.join(env.build, '%s-%s-%d.o' % (part['src'], fl, i))
            cmd = FLAVOURS[fl] + part['cflags'] + fs + includes() + ['-c', os.path.join(HERE, 'harness', s), '-o', o]
            jobs.append((fl, s, o, cmd))
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(lambda j: env.run(j[3]), jobs))
    exe = {}
    for (fl, s, o, cmd), r in zip(jobs, res):
        if r.returncode:
            compile_failure(env, cmd, r)
    for fl in flavours:
        out = os.path.join(env.build, part['src'] + '-' + fl)
        cmd = FLAVOURS[fl] + [o for f, s, o, c in jobs if f == fl] + ['-o', out] + part['libs']
        if part['wrap'] and fl in ('rel', 'o3'):
            cmd += ['-Wl,--wrap=' + part['wrap']]
        r = env.run(cmd)
        if r.returncode:
            compile_failure(env, cmd, r)
        exe[fl] = out
    for j in jobs:
        os.unlink(j[2])
    return exe


def compile_failure(env, cmd, r):
    # once more, so that a passing disturbance of the machine is not taken for a defect
    r2 = env.run(cmd)
    if r2.returncode == 0 or not toolchain_ok(env):
        if r2.returncode == 0:
            return
        print('error: the compiler does not work here', file=sys.stderr)
        sys.exit(2)
    rp = os.path.join(env.replay_dir, env.pid + '-compile.txt')
    err = [l for l in r2.stderr.splitlines() if 'error' in l or 'undefined' in l or 'multiple' in l][:20]
    with open(rp, 'w') as f:
        f.write('property %s\nkind compile\ncommand: %s\n%s\n' % (env.pid, ' '.join(cmd), r2.stderr[:20000]))
    raise Violation(rp, 'a program using the public interface no longer compiles', '\n'.join(err))


def write_replay(env, part, fl, rec):
    rp = os.path.join(env.replay_dir, '%s-%s.txt' % (env.pid, rec['target']))
    with open(rp, 'w') as f:
        f.write('property %s\nkind cpp\nharness %s\nflavour %s\ntarget %s\n' %
                (env.pid, part['src'], fl, rec['target']))
        if rec.get('stream'):
            f.write('stream: %s\n' % rec['stream'])
        else:
            f.write('draws: %s\n' % ' '.join(str(x) for x in rec['draws']))
        f.write('# message: %s\n# case: %s\n' % (rec['msg'].replace('\n', ' '), rec['trace'].replace('\n', ' ')))
    return rp


def run_cpp(env, part):
    flavours = list(part['flavours'])
    exe = build_cpp(env, part, flavours)
    for fl in flavours:
        if fl == 'tsan' and env.run([exe[fl], '--list', '1']).returncode != 0:
            env.notes.append('ThreadSanitizer programs do not start here; flavour skipped')
            continue
        out = os.path.join(env.build, part['src'] + '-' + fl + '.json')
        cmd = [exe[fl], '--seed', str(env.seed), '--workers', str(WORKERS), '--tier', env.tier, '--out', out]
        sc = part['scale'].get(fl, 1.0) * float(os.environ.get('VERIF_SCALE', '1'))
        cmd += ['--scale', repr(sc)]
        r = env.run(cmd)
        try:
            recs = json.load(open(out))
        except Exception:
            print('error: harness %s ended with %s\n%s' % (cmd, r.returncode, r.stderr[-2000:]), file=sys.stderr)
            sys.exit(2)
        for rec in recs:
            rec['flavour'] = fl
            env.records.append(rec)
            if rec['failed'] and rec['flaky']:
                env.notes.append('%s/%s: a failure did not reproduce and was not reported: %s' %
                                 (rec['target'], fl, rec['msg']))
            elif rec['failed']:
                rp = write_replay(env, part, fl, rec)
                bad = 0
                for _ in range(3):
                    q = env.run([exe[fl], '--target', rec['target'], '--replay', rp])
                    bad += q.returncode == 1
                if bad == 0:
                    env.notes.append('%s/%s: replay passed, not reported: %s' % (rec['target'], fl, rec['msg']))
                    continue
                raise Violation(rp, rec['msg'], rec['trace'])
    if env.tier == 'thorough' and part['fuzz'] and not os.environ.get('VERIF_NOFUZZ'):
        run_fuzz(env, part, exe)


def run_fuzz(env, part, exe):
    """Coverage-guided search over the same generators (bytes are decoded into draws) with clang's libFuzzer."""
    fl = flavours0 = part['flavours'][0]
    r = env.run([exe[fl], '--list', '1'])
    tg = [l.split()[0] for l in r.stdout.splitlines() if l.endswith(' 1')]
    if not tg:
        return
    fz = build_cpp(env, dict(part, flavours=['fuzz']), ['fuzz'])['fuzz']
    secs = int(os.environ.get('VERIF_FUZZ_SECS', '240'))
    per = max(1, WORKERS // len(tg)) if len(tg) <= WORKERS else 1
    jobs = []
    for t in tg:
        for k in range(per):
            d = os.path.join(env.build, 'fz-%s-%d' % (t, k))
            os.makedirs(os.path.join(d, 'corpus'))
            jobs.append((t, k, d))

    def one(j):
        t, k, d = j
        return env.run([fz, '-seed=%d' % (env.seed * 1000 + k + 1), '-runs=20000000', '-max_total_time=%d' % secs,
                        '-max_len=4096', '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1',
                        '-artifact_prefix=' + d + '/', os.path.join(d, 'corpus')],
                       env={'PBT_FUZZ_TARGET': t}, cwd=d)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(one, jobs))
    tot = {}
    for (t, k, d), r in zip(jobs, res):
        n = 0
        for l in r.stderr.splitlines():
            if 'stat::number_of_executed_units' in l:
                n = int(l.split()[-1])
        tot[t] = tot.get(t, 0) + n
        for a in sorted(glob.glob(d + '/crash-*')):
            for fl in part['flavours']:
                q = env.run([exe[fl], '--target', t, '--bytes', a])
                if q.returncode == 1:
                    msg = tr = ''
                    draws = []
                    for l in q.stdout.splitlines():
                        if l.startswith('message: '):
                            msg = l[9:]
                        elif l.startswith('trace: '):
                            tr = l[7:]
                        elif l.startswith('draws:'):
                            draws = l[6:].split()
                    rec = dict(target=t, draws=draws, msg=msg, trace=tr)
                    rp = write_replay(env, part, fl, rec)
                    bad = sum(env.run([exe[fl], '--target', t, '--replay', rp]).returncode == 1 for _ in range(3))
                    if bad:
                        raise Violation(rp, msg, tr)
            env.notes.append('libFuzzer artifact of %s did not reproduce under g++: %s' % (t, r.stderr[-300:]))
    for t in tg:
        env.records.append(dict(target=t + ' (libFuzzer)', flavour='fuzz', rule='coverage-guided byte strings decoded '
                                'into the same draws', evaluations=tot[t], distinct=0, nontrivial=0, labels={},
                                samples=[], wall_s=0))
    for j in jobs:
        shutil.rmtree(j[2], ignore_errors=True)


def run_ct(env, part):
    m = importlib.import_module(part['module'])
    import ctlib
    ctlib.run(env, m, part['attr'])


def write_evidence(env, t0, violations, level='exploration'):
    ev = sum(r['evaluations'] for r in env.records)
    dn = {}
    for r in env.records:   # the same generated cases run in several flavours: count them once
        dn[r['target']] = max(dn.get(r['target'], 0), r.get('distinct', 0))
    samples, rules = [], []
    for r in env.records:
        for s in r['samples'][:2]:
            if len(samples) < 12:
                samples.append('%s: %s' % (r['target'], s))
        x = '%s: %s' % (r['target'], r['rule'])
        if x not in rules:
            rules.append(x)
    d = dict(property=env.pid, tier=env.tier, seed=env.seed, level=level,
             coverage=dict(evaluations=ev, distinct_nontrivial=sum(dn.values()), rule=' | '.join(rules),
                           samples=samples,
                           targets=[dict(target=r['target'], flavour=r['flavour'], evaluations=r['evaluations'],
                                         distinct_nontrivial=r.get('distinct', 0), wall_s=round(r['wall_s'], 2),
                                         labels=r['labels']) for r in env.records],
                           notes=env.notes),
             assumptions=['the C++ compiler and standard library are correct',
                          'sysops (absent here) is replaced by stub/sysops/memory_ops.h'],
             wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', env.pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.replace(p + '.tmp', p)


def check(pid, tier, seed):
    t0 = time.time()
    env = Env(pid, tier, seed)
    v = None
    try:
        for part in PARTS[pid]:
            if part['kind'] == 'own':
                importlib.import_module(part['module']).run(env)
            else:
                (run_cpp if part['kind'] == 'cpp' else run_ct)(env, part)
    except Violation as e:
        v = e
    write_evidence(env, t0, 1 if v else 0)
    ev = sum(r['evaluations'] for r in env.records)
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(env.build, ignore_errors=True)
    if v:
        print('%s: %s' % (pid, v.message))
        if v.detail:
            print('  case: ' + v.detail[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, v.replay))
        return 1
    for n in env.notes:
        print('note: ' + n)
    print('OK property=%s tier=%s seed=%d evaluations=%d wall=%.1fs' % (pid, tier, seed, ev, time.time() - t0))
    return 0


def replay(path):
    h = {}
    for l in open(path):
        k, _, x = l.strip().partition(' ')
        h.setdefault(k, x)
    pid = h['property']
    env = Env(pid + '-replay', 'quick', 1)
    env.pid = pid
    if h['kind'] == 'cpp':
        part = [p for p in PARTS[pid] if p.get('src') == h['harness']][0]
        exe = build_cpp(env, part, [h['flavour']])[h['flavour']]
        r = env.run([exe, '--target', h['target'], '--replay', os.path.abspath(path)])
        print(r.stdout)
        bad = r.returncode
    elif h['kind'] == 'ct':
        import ctlib
        bad = ctlib.replay(env, path)
    elif h['kind'] == 'h01':
        bad = importlib.import_module('h01_ct').replay(env, path)
    else:
        print(open(path).read())
        bad = 1
    shutil.rmtree(env.build, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        sys.exit(replay(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.exit(check(a[0], tier, seed))


if __name__ == '__main__':
    main()
