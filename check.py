#!/usr/bin/env python3
"""Builds and runs the checks.

  check.py PROPERTY [quick|thorough]   one check (exit 0 / 1 with a VIOLATION line / 2 no answer)
  check.py build [PROPERTY...]         build only
  check.py replay FILE                 replay a file written by a check
  check.py selftest [PROPERTY...]      determinism of the simulator

Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (default /repo), VERIF_WALL (seconds of search)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
OUT = os.path.join(HERE, 'out')
EVID = os.path.join(HERE, 'evidence') if REPO == '/repo' else os.path.join(OUT, 'evidence')
JOBS = os.cpu_count() or 4

CLANG = next((c for c in ('clang++-18', 'clang++') if shutil.which(c)), None)
COMMON = ['-std=gnu++20', '-g1', '-fno-omit-frame-pointer', '-fno-pie', '-w']
INSTR = ['-O1', '-fsanitize=thread', '-ffp-contract=off', '-include', 'cstdint', '-include', 'algorithm']
CLANG_INSTR = ['-mllvm', '-tsan-instrument-func-entry-exit=0']

sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(src, flags, key_extra, instrument=True):
    cmd = [CLANG] + COMMON + ((INSTR + CLANG_INSTR) if instrument else ['-O2']) + flags
    key = sha(' '.join(cmd), os.path.basename(src), read(src), key_extra)
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if os.path.exists(obj):
        return obj
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if r.returncode != 0 and instrument and shutil.which('g++'):
        # the tree is built with g++: fall back to it for a file clang does not accept
        cmd2 = ['g++'] + COMMON + INSTR + ['--param', 'tsan-instrument-func-entry-exit=0'] + flags
        r2 = subprocess.run(cmd2 + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if r2.returncode != 0:
            raise BuildError('%s\n%s\n--- g++:\n%s' % (src, r.stderr[-3000:], r2.stderr[-3000:]))
    elif r.returncode != 0:
        raise BuildError('%s\n%s' % (src, r.stderr[-4000:]))
    os.rename(tmp, obj)
    return obj


def build(props):
    if CLANG is None:
        raise BuildError('no clang++')
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    inc = os.path.join(REPO, 'include')
    hinc = tree_hash(inc, ('.h', '.hxx', '.hpp', '.inl', '.ipp'))
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cxx'), recursive=True) + glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
    hsrc = tree_hash(os.path.join(REPO, 'src'), ('.h', '.hxx'))
    simh = sha(read(os.path.join(HERE, 'sim', 'rt.h')), read(os.path.join(HERE, 'sim', 'sim.h')))
    harnh = tree_hash(os.path.join(HERE, 'harness'), ('.h', '.inc'))
    ex = cf.ThreadPoolExecutor(JOBS)
    lib, own, once = [], {}, {}
    # the largest translation units first
    for p in props:
        fs = [os.path.join(HERE, 'harness', p + '.cpp')] + [os.path.join(HERE, 'harness', f) for f in PROPS[p].get('extra', [])]
        for f in fs: # shared ones once
            if f not in once:
                once[f] = ex.submit(compile_one, f, ['-I' + inc], hinc + simh + harnh)
        own[p] = [once[f] for f in fs]
    rt = ex.submit(compile_one, os.path.join(HERE, 'sim', 'rt.cpp'), [], simh, False)
    drv = ex.submit(compile_one, os.path.join(HERE, 'sim', 'driver.cpp'), [], simh)
    for s in srcs:
        lib.append(ex.submit(compile_one, s, ['-I' + inc], hinc + hsrc + os.path.relpath(s, REPO)))
    base = [rt.result(), drv.result()]
    libo = [f.result() for f in lib]
    bins = {}
    for p in props:
        objs = [f.result() for f in own[p]] + base + libo
        exe = os.path.join(BUILD, p + '-' + sha(*objs))
        if not os.path.exists(exe):
            tmp = exe + '.%d.tmp' % os.getpid()
            r = subprocess.run([CLANG, '-no-pie', '-o', tmp] + objs + ['-ldl', '-lpthread'], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError('link of %s\n%s' % (p, r.stderr[-4000:]))
            os.rename(tmp, exe)
        bins[p] = exe
    return bins


def symbolise(exe, text):
    tool = shutil.which('llvm-symbolizer-18') or shutil.which('addr2line')
    addrs = sorted(set(re.findall(r'pc=0x([0-9a-f]{5,8})', text)))
    out = []
    if not tool or not addrs:
        return out
    for a in addrs[:12]:
        r = subprocess.run(['addr2line', '-f', '-C', '-i', '-e', exe, '0x' + a], capture_output=True, text=True) if shutil.which('addr2line') else None
        if r and r.returncode == 0:
            ls = r.stdout.strip().splitlines()
            out.append('0x%s: %s' % (a, ' <- '.join('%s at %s' % (ls[i][:90], ls[i + 1].replace(REPO + '/', '')) for i in range(0, min(len(ls) - 1, 8), 2))))
    return out


def known_findings(prop):
    """Lines 'known: property=<id> class=<class> match=<regular expression on the message>'."""
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) match=(.*)$', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), line.strip()))
    return res


def run_workers(exe, prop, seed, nproc, start, count, wall, tag):
    d = os.path.join(OUT, prop, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    procs = []
    for w in range(nproc):
        env = dict(os.environ, SIM_CPU=str(w), SIM_STOP=os.path.join(d, 'stop'))
        o = os.path.join(d, 'w%d.json' % w)
        procs.append((subprocess.Popen([exe, 'worker', str(seed), str(start + w), str(nproc), str((count + nproc - 1) // nproc), str(wall), o], env=env,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), o))
    res, distinct, scheds = [], set(), set()
    for p, o in procs:
        try:
            _, err = p.communicate(timeout=wall + 330)
        except subprocess.TimeoutExpired:
            p.kill()
            raise SystemExit('worker did not end')
        if p.returncode != 0 or not os.path.exists(o):
            print('worker failed (%s): %s' % (p.returncode, err.decode(errors='replace')[-2000:]))
            sys.exit(2)
        res.append(json.load(open(o)))
        for suffix, target in (('.hashes', distinct), ('.scheds', scheds)):
            b = read(o + suffix)
            target.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    return res, len(distinct), len(scheds)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    wall = float(os.environ.get('VERIF_WALL', 0)) or cfg.get('wall', {}).get(tier) or (60 if tier == 'quick' else 600)
    count = cfg.get('runs', {}).get(tier) or 10**9
    try:
        exe = build([prop])[prop]
    except BuildError as e:
        print('BUILD FAILED for %s\n%s' % (prop, e))
        return 2
    tb = time.time() - t0
    d = os.path.join(OUT, prop)
    os.makedirs(d, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    nproc = max(1, min(JOBS, len(os.sched_getaffinity(0))))
    known = known_findings(prop)
    res, distinct, scheds = run_workers(exe, prop, seed, nproc, 0, count, wall, 'work')
    viols = sorted((r['violation'] for r in res if r['violation']), key=lambda v: v['index'])
    for kf in known:
        print('KNOWN-FINDING: ' + kf[2][len('known: '):])
    rc, nviol, reported = 0, 0, None
    problems = []
    mism = sum(r['mismatches'] for r in res)
    for r in res:
        if r['mismatches']:
            print('NOT DETERMINISTIC: ' + r['mismatch'])
    if mism > 10 and mism * 20 > sum(r['double_runs'] for r in res):
        problems.append('%d of the runs executed twice with one seed differed' % mism)
    unlisted = [v for v in viols if not any(k[0] == v['class'] and k[1].search(v['msg']) for k in known)]
    for v in unlisted[:4]:
        path = os.path.join(d, '%s-seed%d-run%d.replay' % (prop, seed, v['index']))
        budget = cfg.get('minimise', 20)
        try:
            m = subprocess.run([exe, 'minimise', str(seed), str(v['index']), path, str(budget)], capture_output=True, text=True, env=dict(os.environ, SIM_CPU='0'), timeout=budget * 3 + 200)
        except subprocess.TimeoutExpired:
            problems.append('minimising run %d took too long' % v['index'])
            continue
        if m.returncode != 0 or not os.path.exists(path):
            problems.append('run %d: %s' % (v['index'], m.stdout.strip()[-600:]))
            continue
        r = subprocess.run([exe, 'replay', path], capture_output=True, text=True, env=dict(os.environ, SIM_CPU='1'))
        if r.returncode != 1:
            problems.append('run %d: the replay file does not reproduce: %s' % (v['index'], r.stdout.strip()[-600:]))
            continue
        with open(path, 'a') as f:
            for l in symbolise(exe, r.stdout):
                f.write('# ' + l + '\n')
        print(m.stdout.strip()[-1500:])
        for l in symbolise(exe, r.stdout):
            print('  ' + l)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        reported = v
        rc, nviol = 1, len(unlisted)
        break
    if unlisted and rc == 0:
        rc = 2
    if rc == 0 and problems:
        rc = 2
    for p in problems:
        print('PROBLEM: ' + p)
    tot = lambda k: sum(r[k] for r in res)  # noqa: E731
    runs, ws = tot('runs'), max(r['wall'] for r in res)
    faults = {k: {'fired': sum(r['faults'][k][0] for r in res), 'runs': sum(r['faults'][k][1] for r in res)} for k in res[0]['faults']}
    probes = {k: {'times': sum(r['probes'][k][0] for r in res), 'runs': sum(r['probes'][k][1] for r in res)} for k in res[0]['probes']}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': distinct,
            'rule': 'One evaluation is one simulated run: a workload, a fault plan and a scheduler drawn from (seed, run number). It is non-trivial if at least one fault fired or one thread '
                    'switch happened and it ran to its end; distinct runs have different hashes over all thread switches (thread, position) and all observed results. ' + cfg['rule'],
            'samples': [r['sample'] for r in res if r['sample']][:8],
            'runs_per_hour': int(runs / ws * 3600) if ws > 0 else 0,
            'seeds_per_hour': int(runs / ws * 3600) if ws > 0 else 0,
            'simulated_seconds': tot('simtime_ns') / 1e9,
            'steps': tot('steps'), 'thread_switches': tot('switches'), 'preemptions': tot('preemptions'), 'allocations': tot('allocs'),
            'max_threads_in_a_run': max(r['max_threads'] for r in res),
            'heaviest_run': dict(zip(('part_of_step_limit', 'run'), max((r['max_load'], r['heaviest']) for r in res))),
            'distinct_interleavings': scheds,
            'interleaving_measure': 'hash of the sequence of thread switches (from, position of the thread, to)',
            'strategies': dict(zip(['no preemption', 'random preemption', 'switches at synchronisation', 'random priorities (PCT)', 'bursts'],
                                   [sum(r['strategies'][i] for r in res) for i in range(5)])),
            'faults_injected': {k: v for k, v in faults.items() if v['fired']},
            'situations_reached': probes,
            'same_seed_twice': tot('double_runs'), 'replayed_from_schedule': tot('replay_runs'), 'determinism_mismatches': tot('mismatches'),
            'invalid_runs': tot('invalid'),
            'real_components': 'all of /repo/src and the headers under /repo/include, libstdc++ (threads, futures, containers, streams), libc',
            'simulated_components': 'thread scheduler, mutexes, condition variables, futexes, thread start, clocks and sleeps, memory allocation, entropy' + cfg.get('stubs', ''),
            'build_s': round(tb, 1),
        },
        'assumptions': ['context switches happen at the memory accesses and synchronisation operations of the instrumented code (library, headers, test workload), not inside libstdc++.so and libc',
                        'one simulated processor: memory is sequentially consistent; unsynchronised accesses are reported by a happens-before analysis instead'] + cfg.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': nviol,
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    inv = tot('invalid')
    if inv and inv * 50 > runs:
        print('PROBLEM: %d of %d runs were invalid: %s' % (inv, runs, next(r['invalid_msg'] for r in res if r['invalid'])))
        rc = rc or 2
    print('%s %s: %d runs (%d distinct, %d interleavings), %.0f s search, %.1f s build, %s' % (
        prop, tier, runs, distinct, scheds, ws, tb, {0: 'no violation', 1: 'VIOLATION ' + str(reported and reported['class']), 2: 'NO ANSWER'}[rc]))
    return rc


def selftest(props):
    n = int(os.environ.get('VERIF_SELFTEST_RUNS', '150'))
    bins = build(props)
    bad = 0
    for p in props:
        outs = []
        for cpu in ('0', '5', '2'):
            env = dict(os.environ, SIM_CPU=cpu)
            if cpu == '2':
                env['SOME_UNRELATED_VARIABLE'] = 'x' * 4000
            outs.append(subprocess.Popen([bins[p], 'hashes', '7', '0', str(n)], env=env, stdout=subprocess.PIPE, text=True))
        outs = [o.communicate()[0] for o in outs]
        same = all(o == outs[0] for o in outs)
        print('%s: %d runs, three processes, %s' % (p, n, 'identical' if same else 'DIFFERENT'))
        if not same:
            bad += 1
            for a, b, c in zip(*[o.splitlines() for o in outs]):
                if not a == b == c:
                    print('  ', a, '|', b, '|', c)
                    break
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'build':
        try:
            build(a[1:] or sorted(PROPS))
        except BuildError as e:
            print('BUILD FAILED\n%s' % e)
            return 1
        return 0
    if a[0] == 'selftest':
        return selftest(a[1:] or sorted(PROPS))
    if a[0] == 'replay':
        prop = re.search(rb'^property (\S+)', read(a[1]), re.M).group(1).decode()
        exe = build([prop])[prop]
        r = subprocess.run([exe, 'replay', a[1]], capture_output=True, text=True)
        print(r.stdout.strip())
        for l in symbolise(exe, r.stdout):
            print('  ' + l)
        return r.returncode
    if a[0] not in PROPS:
        print('unknown property', a[0])
        return 2
    return check(a[0], (a[1] if len(a) > 1 else os.environ.get('VERIF_TIER')) or 'quick')


if __name__ == '__main__':
    sys.exit(main())
