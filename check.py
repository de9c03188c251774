#!/usr/bin/env python3
"""Builds and runs the property-based check of one property against /repo's working tree.

  check.py C03                  run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py C03 --replay FILE    run one saved case
  check.py C03 --only TEST      run one test of the check
  check.py --setup              check that the toolchain works (no state is kept)

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow', '-fno-sanitize-recover=undefined']
CXX = ['g++', '-std=gnu++17', '-O1', '-w', '-g1', '-D_DEBUG', '-fno-omit-frame-pointer',
       '-I' + REPO + '/include', '-I' + H]
ENV = dict(os.environ, LC_ALL='C.UTF-8',
           ASAN_OPTIONS='detect_leaks=0:malloc_context_size=2:quarantine_size_mb=32:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=0:exitcode=98')


def lib_sources():
    return sorted(f for f in glob.glob(REPO + '/src/*.cpp') if not os.path.basename(f).startswith('test_'))


def compile_all(units, bdir):
    """units: (source, flags); returns objects, or raises with the compiler's message"""
    def one(u):
        src, flags = u
        obj = os.path.join(bdir, os.path.basename(src) + '.o')
        p = subprocess.run(CXX + flags + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        return obj, p.returncode, src, p.stdout
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, units))
    bad = [r for r in rs if r[1]]
    if bad:
        raise RuntimeError('cannot compile %s:\n%s' % (bad[0][2], bad[0][3][:6000]))
    return [r[0] for r in rs]


def build(pid, bdir):
    srcs = sorted(glob.glob(os.path.join(H, pid + '_*.cpp')))
    if not srcs:
        raise RuntimeError('no harness for ' + pid)
    units = [(s, SAN) for s in srcs + lib_sources()] + [(os.path.join(H, 'pbt.cpp'), ['-O2'])]
    objs = compile_all(units, bdir)
    exe = os.path.join(bdir, pid)
    p = subprocess.run(['g++'] + SAN + objs + ['-o', exe, '-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    if p.returncode:
        raise RuntimeError('cannot link: ' + p.stdout[:4000])
    return exe


def build_fuzzer(pid, bdir):
    fdir = os.path.join(bdir, 'fuzz'); os.makedirs(fdir, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(H, pid + '_*.cpp'))) + lib_sources() + [os.path.join(H, 'pbt.cpp')]
    def one(src):
        obj = os.path.join(fdir, os.path.basename(src) + '.o')
        p = subprocess.run(['clang++', '-std=gnu++17', '-O1', '-w', '-g1', '-D_DEBUG', '-DPBT_FUZZER', '-fsanitize=fuzzer,address', '-I' + REPO + '/include', '-I' + H,
                            '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if p.returncode:
            raise RuntimeError('cannot compile fuzz target: ' + p.stdout[:4000])
        return obj
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    exe = os.path.join(fdir, pid + '_fuzz')
    p = subprocess.run(['clang++', '-fsanitize=fuzzer,address'] + objs + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    if p.returncode:
        raise RuntimeError('cannot link fuzz target: ' + p.stdout[:4000])
    return exe


def known_findings(pid):
    """known_findings.txt: 'finding: property=<id> test=<test> <what fails>' (suppresses), 'fixed: ...' (does not)"""
    res = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) test=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                res[m.group(2)] = (m.group(3), m.group(4).strip())
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        bdir = tempfile.mkdtemp(prefix='verif-setup-')
        try:
            compile_all([(os.path.join(H, 'pbt.cpp'), [])], bdir)
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
        print('toolchain ok')
        return 0
    pid = args[0]
    replay = only = None
    scale = '1'
    while len(args) > 1:
        a = args.pop(1)
        if a == '--replay': replay = os.path.abspath(args.pop(1))
        elif a == '--only': only = args.pop(1)
        elif a == '--scale': scale = args.pop(1)
        else: raise SystemExit('unknown argument ' + a)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        exe = build(pid, bdir)
        tbuild = time.time() - t0
        work = os.path.join(bdir, 'work'); os.makedirs(work)
        if replay:
            return subprocess.run([exe, '--replay', replay, '--work', work], env=ENV, cwd=work).returncode
        rdir = os.path.join(VERIF, 'replays', pid); 
        shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
        out = os.path.join(bdir, 'result.json')
        cmd = [exe, '--seed', str(seed), '--out', out, '--work', work, '--replays', rdir, '--scale', scale,
               '--budget', '400' if tier == 'quick' else '3600']
        if tier == 'thorough': cmd.append('--thorough')
        if only: cmd += ['--only', only]
        p = subprocess.run(cmd, env=ENV, cwd=work)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            raise RuntimeError('check driver ended with %d' % p.returncode)
        res = json.load(open(out))['tests']
        known = known_findings(pid)
        violations, knowns, samples = [], [], []
        fuzz = None
        for t in res:
            f = t.get('failure')
            if f:
                k = known.get(t['name'])
                if k and t['fixed'] and k[0] == f['key']:
                    knowns.append((t['name'], k[1]))
                    os.unlink(f['replay'])
                else:
                    violations.append((t['name'], f))
        if tier == 'thorough' and not violations and not only:
            fuzz = run_fuzz(pid, bdir, seed, exe, work, rdir, violations)
        for t in res:
            for s in t['samples'][:2]:
                samples.append({'test': t['name'], 'case': s})
        cov = {
            'evaluations': sum(t['done'] for t in res) + (fuzz or {}).get('executions', 0),
            'distinct_nontrivial': sum(t['distinct'] for t in res),
            'rule': '; '.join('%s: %s' % (t['name'], t['rule']) for t in res if not t['fixed']),
            'samples': samples[:24] or [{'test': t['name'], 'case': 'fixed program'} for t in res],
            'tests': [{k: t[k] for k in ('name', 'planned', 'done', 'discarded', 'nontrivial', 'distinct', 'labels', 'wall_ms', 'budget_hit', 'fixed')} for t in res],
        }
        if fuzz: cov['coverage_guided'] = fuzz
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['IEEE double arithmetic without fused or reassociated operations; see DESIGN.md for the domain and tolerances of each oracle'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fo:
            json.dump(ev, fo, indent=1)
        for n, what in knowns:
            print('KNOWN-FINDING: property=%s %s' % (pid, what))
        for n, f in violations:
            print('%s failed: %s: %s' % (n, f['key'], f['msg'][:3000]))
            print('  case: %s' % f['case'][:3000])
        for n, f in violations:
            print('VIOLATION property=%s replay=%s' % (pid, f['replay']))
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s: %s' % (
            pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], tbuild, time.time() - t0,
            'VIOLATED' if violations else 'held'))
        try: os.rmdir(rdir)
        except OSError: pass
        return 1 if violations else 0
    except RuntimeError as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def run_fuzz(pid, bdir, seed, exe, work, rdir, violations):
    """Coverage-guided search (libFuzzer) over the same tests: the bytes are the choice sequence.
    A failure counts only if the saved choices fail again, three times, in the ordinary build."""
    secs = int(os.environ.get('VERIF_FUZZ_SECONDS', '240'))
    fexe = build_fuzzer(pid, bdir)
    jobs = []
    for i in range(8):
        d = os.path.join(work, 'fz%d' % i); os.makedirs(os.path.join(d, 'corpus'))
        import random
        rng = random.Random(seed*100 + i)
        for k in range(24):
            with open(os.path.join(d, 'corpus', 's%d' % k), 'wb') as f:
                f.write(bytes([rng.randrange(256) for _ in range(rng.choice([16, 64, 256, 600]))]))
        env = dict(ENV, PBT_FUZZ_OUT=d)
        jobs.append((d, subprocess.Popen([fexe, 'corpus', '-seed=%d' % (seed*8 + i + 1), '-max_total_time=%d' % secs, '-max_len=2000', '-timeout=60', '-rss_limit_mb=3000', '-print_final_stats=1'],
                                         cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, 'log'), 'w'))))
    execs = 0; cover = 0; notes = []
    for d, p in jobs:
        p.wait()
        log = open(os.path.join(d, 'log'), errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s+(\d+)', log)
        if m: execs += int(m.group(1))
        for m in re.finditer(r'cov: (\d+)', log): cover = max(cover, int(m.group(1)))
        rf = os.path.join(d, 'fuzz-failure.replay')
        if not os.path.exists(rf):
            if p.returncode: notes.append('a fuzzing process ended with %s without a semantic failure: %s' % (p.returncode, log[-400:]))
            continue
        fails = 0; key = {}
        for _ in range(3):
            o = os.path.join(d, 'rp.json')
            r = subprocess.run([exe, '--replay', rf, '--work', work, '--out', o, '--thorough'], env=ENV, cwd=work, stdout=subprocess.DEVNULL)
            if r.returncode == 1:
                fails += 1; key = json.load(open(o))
        if fails == 3:
            dst = os.path.join(rdir, 'fuzz%d.replay' % len(violations)); shutil.copy(rf, dst)
            violations.append(('fuzzing', {'key': key['key'], 'msg': key['msg'], 'case': '', 'replay': dst}))
        else:
            notes.append('fuzzer failure did not replay: ' + open(rf).read()[-300:])
    return {'executions': execs, 'edges_covered': cover, 'seconds': secs, 'processes': 8, 'notes': notes}


if __name__ == '__main__':
    sys.exit(main())
