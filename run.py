#!/usr/bin/env python3
"""Run the check of one property: build its harnesses from /repo, run them sharded, judge, report.

  run.py ID [--tier quick|thorough] [--replay FILE] [--scale X]

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no verdict (build failure, too little observed).
"""
import argparse, collections, concurrent.futures, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CLMB_REPO', '/repo')
SRC = os.path.join(HERE, 'src')
sys.path.insert(0, HERE)
from props import PROPS

EIGEN = '/usr/include/eigen3'
CXX = shutil.which('clang++-18') or shutil.which('clang++')
BASE = ['-std=c++17', '-w', '-fopenmp', '-g1', '-I' + REPO + '/include', '-isystem' + EIGEN, '-I' + SRC]
SAN = {
    None: ['-O1'],
    'asan': ['-O0', '-fsanitize=address,undefined,float-divide-by-zero', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'asan1': ['-O1', '-fsanitize=address,undefined,float-divide-by-zero', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain0': ['-O0'],
}
SANENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:detect_stack_use_after_return=1:strict_init_order=1:alloc_dealloc_mismatch=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=98:ignore_noninstrumented_modules=1:history_size=4:report_signal_unsafe=0',
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    pass


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def compile_obj(args):
    cmd, obj = args
    if not os.path.exists(obj):
        tmp = obj + '.%d.%d' % (os.getpid(), threading.get_ident())
        rc, out = sh(cmd + ['-o', tmp])
        if rc != 0:
            raise Inconclusive('build failed: %s\n%s' % (' '.join(cmd), out[-3000:]))
        os.rename(tmp, obj)
    return obj


def build_cpp(job, scratch):
    flags = BASE + SAN[job.get('san')] + job.get('flags', [])
    tag = hashlib.sha1(json.dumps([job['src'], flags]).encode()).hexdigest()[:10]
    exe = os.path.join(scratch, os.path.splitext(job['src'])[0] + '-' + tag)
    if not os.path.exists(exe):
        units = [([CXX, '-std=c++17', '-w', '-O1', '-g1', '-isystem' + EIGEN, '-I' + SRC, '-c', os.path.join(SRC, 'support.cpp')], os.path.join(scratch, 'support.o')),
                 ([CXX] + flags + ['-c', os.path.join(SRC, job['src'])], exe + '.o')]
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            objs = list(ex.map(compile_obj, units))
        rc, out = sh([CXX, '-fopenmp'] + [f for f in flags if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')] + objs + ['-o', exe] + job.get('libs', []))
        if rc != 0:
            raise Inconclusive('link of %s failed:\n%s' % (job['src'], out[-3000:]))
    return [exe]


def build_so(so, scratch):
    """A shared object with its own copy of the code under test: (source, flags)."""
    src, flags = so
    out = os.path.join(scratch, os.path.splitext(src)[0] + '.so')
    compile_obj(([CXX] + [f for f in BASE if f != '-fopenmp'] + ['-O1', '-fPIC', '-fvisibility=hidden', '-shared'] + flags + [os.path.join(SRC, src), os.path.join(SRC, 'support.cpp')], out))


def pyroot(job, scratch):
    return os.path.join(scratch, 'py' if not job.get('san') else 'py-' + job['san'])


def build_py(job, scratch):
    """Python package `lmb` built from /repo, the viewers, and the observer module, in a directory per sanitizer."""
    root = pyroot(job, scratch)
    d = os.path.join(root, 'lmb')
    if not os.path.exists(os.path.join(d, 'done')):
        os.makedirs(d)
        suf = subprocess.check_output(['/usr/bin/python3', '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))']).decode().strip()
        inc = subprocess.check_output(['/usr/bin/python3', '-c', 'import sysconfig,pybind11;print(sysconfig.get_paths()["include"]);print(pybind11.get_include())']).decode().split()
        san = [f for f in SAN[job.get('san')] if f != '-O0']
        if san and san != ['-O1']:
            san += ['-shared-libasan']
        common = [CXX] + BASE + san + ['-O1', '-fPIC', '-shared', '-fvisibility=hidden'] + ['-isystem' + i for i in inc]
        jobs = [common + [os.path.join(REPO, 'lmb', mod + '.cpp'), '-o', os.path.join(d, mod + suf)] for mod in ('lmb', 'cf')]
        jobs.append(common + ['-DOBSERVER', os.path.join(HERE, 'py', 'observer.cpp'), os.path.join(SRC, 'support.cpp'), '-o', os.path.join(root, 'observer' + suf)])
        jobs.append([CXX, '-std=c++17', '-O1', '-fPIC', '-shared', os.path.join(HERE, 'py', 'seed.cpp'), '-o', os.path.join(root, 'seed.so')])
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for rc, out in ex.map(sh, jobs):
                if rc != 0:
                    raise Inconclusive('build of the Python module failed:\n' + out[-3000:])
        for f in glob.glob(os.path.join(REPO, 'lmb', '*.py')):
            shutil.copy(f, d)
        for f in ('clmb.py',):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), root)
        if os.path.isdir(os.path.join(REPO, 'plots')):
            shutil.copytree(os.path.join(REPO, 'plots'), os.path.join(root, 'plots'))
        open(os.path.join(d, 'done'), 'w').write('')
    return ['/usr/bin/python3', '-B', os.path.join(HERE, 'py', job['src'])]


def build(job, scratch):
    kind = job.get('kind', 'cpp')
    if kind == 'cpp':
        return build_cpp(job, scratch)
    cmd = build_py(job, scratch)
    for extra in job.get('with_cpp', []):
        build_cpp(extra, scratch)
    return cmd


def run_shard(cmd, job, pid, seed, tier, cases, shard, shards, scratch, until=None, hang=None):
    tag = '%s-%s-%d%s' % (job['name'], job.get('mode', ''), shard, '' if until is None else '-u%d' % until)
    out = os.path.join(scratch, tag + '.json')
    for f in (out, out + '.cur'):
        if os.path.exists(f):
            os.unlink(f)
    args = ['--seed', str(seed), '--cases', str(cases), '--shard', str(shard), '--shards', str(shards), '--tier', tier,
            '--mode', job.get('mode', pid), '--out', out, '--hang', str(hang or job.get('hang', 60))]
    if until is not None:
        args += ['--until', str(until)]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('OMP_', 'KMP_', 'ASAN_', 'UBSAN_', 'TSAN_', 'LD_PRELOAD')):
            del env[k]
    env.update(OMP_NUM_THREADS='1', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', MPLCONFIGDIR=scratch,
               HARNESS_SCRATCH=scratch, CLMB_REPO=REPO, PYTHONPATH=pyroot(job, scratch), SYMBOLIZER='/usr/bin/llvm-symbolizer-18')
    for s in ('ASAN_SYMBOLIZER_PATH', 'TSAN_SYMBOLIZER_PATH', 'UBSAN_SYMBOLIZER_PATH'):
        p = shutil.which('llvm-symbolizer-18') or shutil.which('llvm-symbolizer')
        if p:
            env[s] = p
    env.update(SANENV)
    if job.get('san') == 'tsan':
        tool = next((f for f in sorted(glob.glob('/usr/lib/llvm-18/lib/libarcher.so*'))), None)
        if not tool:
            raise Inconclusive('libarcher, which tells ThreadSanitizer of OpenMP synchronisation, is missing')
        env['OMP_TOOL_LIBRARIES'] = tool
    if job.get('kind') == 'py':
        pre = [os.path.join(pyroot(job, scratch), 'seed.so')]
        if job.get('san') in ('asan', 'asan1'):
            pre.insert(0, subprocess.check_output([CXX, '-print-file-name=libclang_rt.asan-x86_64.so']).decode().strip())
            env['ASAN_OPTIONS'] = SANENV['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            env['PYTHONMALLOC'] = 'malloc'
        env['LD_PRELOAD'] = ' '.join(pre)
    env.update({k: v.replace('@SCRATCH', scratch).replace('@SRC', SRC) for k, v in job.get('env', {}).items()})
    errp = os.path.join(scratch, tag + '.err')

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not job.get('san') and job.get('kind', 'cpp') == 'cpp' and not job.get('nolimit'):
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        os.setsid()
    full = [x.replace('@SCRATCH', scratch) for x in job.get('wrap', [])] + cmd + args
    wall = job.get('wall', 500 if tier == 'quick' else 3400)
    if tier == 'quick':
        wall = max(60, min(wall, START + 850 - time.time()))
    end, seen = time.time() + wall, None
    with open(errp, 'wb') as ef, open(os.path.join(scratch, tag + '.out'), 'wb') as of:
        p = subprocess.Popen(full, stdout=of, stderr=ef, env=env, cwd=scratch, preexec_fn=limits)
        try:
            while True:
                try:
                    rc = p.wait(timeout=5)
                    break
                except subprocess.TimeoutExpired:
                    # racing code can get stuck; a minute after its first race a run has shown enough
                    if seen is None and job.get('san') == 'tsan' and b'WARNING: ThreadSanitizer' in open(errp, 'rb').read(1 << 20):
                        seen = time.time()
                    if time.time() > end or seen is not None and time.time() > seen + 60:
                        raise
        except subprocess.TimeoutExpired:
            rc = 'wall'
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    err = open(errp, errors='replace').read()
    cur = -1
    try:
        cur = int(open(out + '.cur').read().split()[0])
    except Exception:
        pass
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    return rc, err, cur, res


def crash_key(rc, err):
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)(.*)', err)
    if m:
        loc = m.group(3)
        fn = re.search(r'([\w.]+\.(?:hpp|h|inc|cpp)):\d+', loc)
        return 'sanitizer:%s:%s' % (m.group(2), fn.group(1) if fn else '?')
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        return 'sanitizer:ub:' + re.sub(r'[-0-9.e+x]+', '#', m.group(1))[:60].strip()
    if 'HARNESS-HANG' in err:
        return 'hang'
    if rc == 'wall':
        return 'stall'
    if isinstance(rc, int) and rc < 0:
        return 'crash:signal%d' % -rc
    m = re.findall(r'^(\w+(?:Error|Exception)[^\n]*)', err, re.M)
    return 'crash:exit%s%s' % (rc, ':' + m[-1][:80] if m else '')


def race_reports(err):
    """Distinct ThreadSanitizer reports, keyed by the two code locations in the code under test."""
    out = {}
    for rep in re.split(r'={18,}', err):
        if 'WARNING: ThreadSanitizer' not in rep:
            continue
        kind = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', rep).group(1).strip()
        locs = []
        for blk in re.split(r'\n\s*\n', rep):
            if re.search(r'(Write|Read|write|read|mutex|Mutex|heap block|Location)', blk.split('\n')[0] if blk.strip() else ''):
                f = re.search(r'#\d+ .*?([\w./]+/include/([\w.]+)):(\d+)', blk)
                if f:
                    locs.append(f.group(2))
        out.setdefault('race:%s:%s' % (kind, '+'.join(sorted(set(locs[:2])))), rep.strip()[:3500])
    return out


def valgrind_reports(err):
    """Distinct memcheck reports, keyed by kind and file of the innermost frame in the code under test."""
    out = {}
    for rep in re.split(r'\n==\d+== \n', err):
        m = re.search(r'==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Syscall param|Invalid free|Mismatched free)', rep)
        if m:
            names = '|'.join(re.escape(os.path.basename(f)) for f in glob.glob(os.path.join(REPO, 'include', '*')))
            f = re.search(r'\((%s):(\d+)\)' % names, rep)
            out.setdefault('memcheck:%s:%s' % (m.group(1), f.group(1) if f else '?'), rep.strip()[:3500])
    return out


def load_known(pid):
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


START = time.time()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop = PROPS[a.id]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='clmb-%s-' % a.id)
    try:
        return check(a, prop, seed, scratch, t0)
    except Inconclusive as e:
        log('%s: no verdict: %s' % (a.id, e))
        return 2
    finally:
        if a.keep:
            log('scratch kept in', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def check(a, prop, seed, scratch, t0):
    pid, tier = a.id, a.tier
    jobs = prop['jobs']
    for k, j in enumerate(jobs):
        j.setdefault('name', 'j%d-%s' % (k, os.path.splitext(j['src'])[0]))
    if a.replay:
        r = json.load(open(a.replay))
        job = next(j for j in jobs if j['name'] == r['job'])
        for x in job.get('so', []):
            build_so(x, scratch)
        cmd = build(job, scratch)
        rc, err, cur, res = run_shard(cmd, job, pid, r['seed'], r['tier'], r['cases'], r['shard'], r['shards'], scratch, until=r['case'] if r['case'] >= 0 else None)
        hit = []
        if res:
            hit = [v for v in res['violations'] if v['key'] == r['key']]
        races = dict(race_reports(err), **valgrind_reports(err))
        if not hit and (r['key'] in races or (not res or not res.get('complete')) and crash_key(rc, err) == r['key']):
            hit = [{'key': r['key'], 'msg': races.get(r['key'], err[-3000:]), 'case': cur}]
        if hit:
            print(hit[0]['msg'])
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        print('not reproduced')
        return 0
    todo = [j for j in jobs if tier in j.get('tiers', ('quick', 'thorough'))]
    # builds in parallel (Python modules and harnesses side by side)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        uniq = {}
        for j in todo:
            uniq.setdefault(('py', j.get('san')) if j.get('kind', 'cpp') != 'cpp' else (j['src'], j.get('san'), tuple(j.get('flags', []))), j)
        sos = {x[0]: x for j in todo for x in j.get('so', [])}
        fs = [ex.submit(build_so, x, scratch) for x in sos.values()]
        list(ex.map(lambda j: build(j, scratch), uniq.values()))
        for f in fs:
            f.result()
    tb = time.time()
    counters = collections.Counter()
    evaluations, sigs, samples, viols = 0, set(), [], []
    for job in todo:
        if viols and time.time() - t0 > 300 and tier == 'quick':
            log('%s: violated; %s left out' % (pid, job['name']))
            continue
        cmd = build(job, scratch)
        cases = job['quick'] if tier == 'quick' else job.get('thorough', job['quick'] * 10)
        cases = max(1, int(cases * a.scale))
        shards = min(job.get('shards', 8), cases)

        def one(s):
            return s, run_shard(cmd, job, pid, seed, tier, cases, s, shards, scratch)
        with concurrent.futures.ThreadPoolExecutor(job.get('workers', 8)) as ex:
            results = list(ex.map(one, range(shards)))
        for s, (rc, err, cur, res) in results:
            meta = dict(property=pid, job=job['name'], seed=seed, tier=tier, cases=cases, shard=s, shards=shards)
            for k, rep in list(race_reports(err).items()) + list(valgrind_reports(err).items()):
                viols.append(dict(meta, key=k, msg=rep, case=-1))
            if res:
                evaluations += res['evaluations']
                sigs |= {job['name'] + x for x in res['sigs']}
                for k, v in res['counters'].items():
                    counters[k] = max(counters[k], v) if k.startswith('max_') else counters[k] + v
                samples += res['samples'][:1] if len(samples) < 6 else []
                for v in res['violations'] if not job.get('memory_only') else []:
                    viols.append(dict(meta, **v))
            if res and res.get('complete') and rc in (0, 98) or res and res.get('complete') and rc == 99 and valgrind_reports(err):
                continue
            if res and res.get('complete') and rc == 99 and 'LeakSanitizer' in err:
                viols.append(dict(meta, key='sanitizer:leak', msg=err[-6000:][:3500], case=-1))
                continue
            if rc == -9:
                raise Inconclusive('shard %d was killed (out of memory?)' % s)
            key = crash_key(rc, err)
            if key in ('hang', 'stall') and viols:
                continue        # one confirmed violation is enough; repeating every stuck shard takes too long
            if key in ('hang', 'stall'):
                # once more, alone, with twice the allowance
                log('%s: shard %d %s in case %d; repeating' % (pid, s, key, cur))
                rc2, err2, cur2, res2 = run_shard(cmd, job, pid, seed, tier, cases, s, shards, scratch, until=cur, hang=2 * job.get('hang', 60))
                if crash_key(rc2, err2) not in ('hang', 'stall') or cur2 != cur:
                    raise Inconclusive('shard %d timed out in case %d, not reproduced' % (s, cur))
            if job.get('kind') == 'py' and rc == 3:
                raise Inconclusive('harness error:\n' + err[-3000:])
            m = re.search(r'(ERROR: \w+Sanitizer|runtime error)', err)
            msg = err[max(0, m.start() - 200):m.start() + 3500] if m else err[-3000:]
            viols.append(dict(meta, key=key, msg=msg, case=cur))
    known = load_known(pid)
    fresh = [v for v in viols if v['key'] not in known]
    seen = sorted({v['key'] for v in viols if v['key'] in known})
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=len(fresh),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(sigs), rule=prop['rule'], samples=samples[:5] or ['none'],
                            observed={k: round(v, 12) for k, v in sorted(counters.items())}, build_s=round(tb - t0, 1),
                            jobs=[dict(harness=j['src'], mode=j.get('mode', pid), sanitizer=j.get('san') or 'none') for j in todo]),
              assumptions=prop.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        done = set()
        for v in fresh:
            if v['key'] in done:
                continue
            done.add(v['key'])
            name = re.sub(r'[^\w.-]+', '_', '%s-%s' % (pid, v['key']))[:80] + '.json'
            path = os.path.join(HERE, 'replays', name)
            json.dump(v, open(path, 'w'), indent=1)
            print('-- %s [%s] case %s: %s' % (pid, v['key'], v['case'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    floor = prop.get('floor', {})
    if a.scale >= 1:
        low = ['%s=%s<%s' % (k, counters.get(k, 0), f) for k, f in floor.items() if counters.get(k, 0) < f]
        if len(sigs) < 10 or low:
            raise Inconclusive('too little was observed: %d distinct cases; %s' % (len(sigs), ', '.join(low)))
    print('%s: held on %d executions (%d distinct), %.0f s; %s' % (pid, evaluations, len(sigs), time.time() - t0,
          ', '.join('%s=%.6g' % kv for kv in sorted(counters.items())[:14])))
    return 0


if __name__ == '__main__':
    sys.exit(main())
