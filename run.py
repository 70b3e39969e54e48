#!/usr/bin/env python3
"""Builds and runs the check of one property against the current working tree of /repo.

  run.py ID                     run the check (VERIF_TIER=quick|thorough, VERIF_SEED=n); exit 0, 1 (VIOLATION) or 2 (error)
  run.py ID --replay FILE       run the single case a replay file names, with details on stderr
  run.py --build ID...          only build
  run.py --setup                verify that the tools are there
"""
import base64, concurrent.futures, glob, hashlib, json, mmap, os, random, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 4

WRAPS = '''socket connect bind close shutdown send sendto sendmsg recv recvfrom recvmsg read write readv writev select pselect
poll ppoll fcntl fcntl64 ioctl setsockopt getsockopt getsockname getpeername nanosleep clock_nanosleep usleep sleep
clock_gettime gettimeofday time _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv
_ZNSt13random_device9_M_getvalEv'''.split()

COMMON = ['-std=c++20', '-g1', '-U_FORTIFY_SOURCE', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-Wno-deprecated',
          '-DEIPSCANNER_VERIF']
VARIANTS = {
    # name: (compiler, flags of the library and the check, flags of the harness, link flags)
    'asan': ('g++', ['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'], ['-O1'],
             ['-fsanitize=address,undefined']),
    'tsan': ('g++', ['-O1', '-fsanitize=thread'], ['-O1', '-fsanitize=thread'], ['-fsanitize=thread']),
    'plain': ('g++', ['-O0'], ['-O1', '-DSIM_VALGRIND'], []),
    # the same code with stack and heap filled with different patterns
    # the cases driven by libFuzzer: the library is instrumented for coverage, the check is not
    'fuzz': ('clang++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DPROP_FUZZ', '-Wno-everything'],
             ['-O1', '-DPROP_FUZZ', '-Wno-everything'], ['-fsanitize=fuzzer,address,undefined']),
    'zero': ('g++', ['-O1', '-ftrivial-auto-var-init=zero'], ['-O1'], []),
    'pattern': ('g++', ['-O1', '-ftrivial-auto-var-init=pattern'], ['-O1'], []),
}
VARIANT_OF = {'M03': 'tsan'}
VALGRIND = ['valgrind', '-q', '--tool=memcheck', '--leak-check=no', '--num-callers=20', '--error-limit=no', '--track-origins=no']
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:quarantine_size_mb=64:thread_local_quarantine_size_kb=64:allocator_release_to_os_interval_ms=500:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1:hard_rss_limit_mb=3000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=98:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0',
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log('error:', msg)
    sys.exit(2)


_hashes = {}


def fhash(path):
    if path not in _hashes:
        try:
            _hashes[path] = hashlib.sha1(open(path, 'rb').read()).hexdigest()
        except OSError:
            _hashes[path] = None
    return _hashes[path]


def compile_one(cc, src, obj, flags):
    """Compiles unless the object is up to date by content of everything it was made from."""
    meta = obj + '.json'
    cmd = [cc] + flags + ['-c', src, '-o', obj, '-MMD', '-MF', obj + '.d']
    try:
        m = json.load(open(meta))
        if m['cmd'] == cmd and os.path.exists(obj) and all(fhash(p) == h for p, h in m['deps'].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return '%s:\n%s' % (src, p.stdout[-6000:])
    deps = open(obj + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    deps = [d for d in deps if d.startswith(REPO + '/') or d.startswith(VERIF + '/')]
    json.dump({'cmd': cmd, 'deps': {d: fhash(d) for d in deps}}, open(meta, 'w'))
    return None


def library_sources():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))


def include_dirs():
    # every directory below src/vendor that holds headers is an include root for some vendor header
    dirs = [REPO + '/src']
    for d in sorted(glob.glob(REPO + '/src/vendor/*/*')):
        if os.path.isdir(d):
            dirs.append(d)
    return ['-I' + d for d in dirs]


def build(targets):
    """targets: list of (check, variant). Returns the paths of the binaries."""
    work, bins = [], []
    for check, variant in targets:
        cc, lflags, hflags, _ = VARIANTS[variant]
        inc = include_dirs()
        vdir = os.path.join(BUILD, variant)
        objs = []
        for s in library_sources():
            o = os.path.join(vdir, 'lib', os.path.relpath(s, REPO).replace('/', '__') + '.o')
            work.append((cc, s, o, COMMON + lflags + (['-fsanitize=fuzzer-no-link'] if variant == 'fuzz' else []) + inc))
            objs.append(o)
        for s in ('sim', 'prop', 'adapter'):
            o = os.path.join(vdir, 'harness', s + '.o')
            work.append((cc, os.path.join(VERIF, 'harness', s + '.cpp'), o, COMMON + hflags))
            objs.append(o)
        o = os.path.join(vdir, 'checks', check + '.o')
        extra = ['-DSIM_VALGRIND'] if variant == 'plain' else []
        # the longest compilation goes first
        work.insert(0, (cc, os.path.join(VERIF, 'checks', check + '.cpp'), o, COMMON + lflags + inc + extra + ['-I' + VERIF + '/harness']))
        objs.append(o)
        bins.append((os.path.join(vdir, check), objs, variant))
    uniq = {}
    for w in work:
        uniq.setdefault(w[2], w)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda w: compile_one(*w), uniq.values()) if e]
    if errs:
        die('build failed:\n' + '\n'.join(errs[:3]))
    out = []
    for exe, objs, variant in bins:
        cc, _, _, ldflags = VARIANTS[variant]
        cmd = [cc] + ldflags + ['-o', exe] + objs + ['-Wl,--wrap=' + w for w in WRAPS] + ['-lpthread']
        key = json.dumps([cmd, [os.stat(o).st_mtime_ns for o in objs]])
        try:
            fresh = os.path.exists(exe) and open(exe + '.link').read() == key
        except OSError:
            fresh = False
        if not fresh:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                die('link failed:\n' + p.stdout[-6000:])
            open(exe + '.link', 'w').write(key)
        out.append(exe)
    return out


# ---------------------------------------------------------------------------------------------- running

def read_state(path):
    try:
        b = open(path, 'rb').read()
        started, index, running = struct.unpack_from('<QQI', b)
        return started, index, running, b[20:140].split(b'\0')[0].decode('latin1')
    except (OSError, struct.error):
        return 0, 0, 0, ''


def crash_key(rc, text, phase):
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m and m.group(1) not in ('ABRT',):
        kind = 'asan-' + m.group(1)
    m = re.search(r'runtime error: (.*)', text)
    if not kind and m:
        kind = 'ubsan-' + re.sub(r'-?\b(0x)?[0-9a-f]*\d[0-9a-f]*\b', 'N', m.group(1))[:60].strip().replace(' ', '-')
    if not kind and 'sim: no progress' in text:
        kind = 'no-progress'
    if not kind and ('terminate called' in text or 'terminate' in text and rc != 0 and 'libc++abi' in text):
        kind = 'terminate'
    if not kind and 'Assertion' in text:
        kind = 'assertion'
    if not kind and 'WARNING: ThreadSanitizer: ' in text:
        kind = 'tsan-' + re.search(r'ThreadSanitizer: ([\w -]+)', text).group(1).strip().replace(' ', '-')
    if not kind:
        kind = 'exit-%d' % rc
    return 'crash:%s:%s' % (kind, phase)


class Worker:
    def __init__(self, exe, args, wd, k, step, n, wrapper):
        self.exe, self.args, self.wd, self.k, self.step, self.n, self.wrapper = exe, args, wd, k, step, n, wrapper
        self.first = k
        self.state = os.path.join(wd, 'state%d' % k)
        self.out = os.path.join(wd, 'out%d' % k)
        self.err = os.path.join(wd, 'err%d' % k)
        self.proc = None
        self.restarts = 0

    def start(self):
        if os.path.exists(self.state):
            os.unlink(self.state)
        cmd = self.wrapper + [self.exe, '--first', str(self.first), '--step', str(self.step), '--cases', str(self.n),
                              '--out', self.out, '--state', self.state] + self.args
        self.proc = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(self.err, 'wb'),
                                     env=dict(os.environ, **ENV), cwd=self.wd)
        self.last = (None, time.time())

    def errtext(self):
        return open(self.err, 'rb').read()[-200000:].decode('latin1')


def run_binary(exe, seed, thorough, wrapper=(), cases=None, hang_s=45, workers=JOBS):
    info = json.loads(subprocess.run([exe, '--info'], stdout=subprocess.PIPE, env=dict(os.environ, **ENV)).stdout)
    n = cases or (info['thorough'] if thorough else info['quick'])
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, int(n * scale))
    wd = tempfile.mkdtemp(prefix='verif-', dir=BUILD)
    res = {'violations': [], 'counts': {}, 'sets': {}, 'samples': [], 'inconclusive': [], 'info': info, 'n': n}
    try:
        args = ['--seed', str(seed)] + (['--thorough'] if thorough else [])
        k = min(workers, n)
        ws = [Worker(exe, args, wd, i, k, n, list(wrapper)) for i in range(k)]
        for w in ws:
            w.start()
        live = list(ws)
        hung = False
        while live and not hung:
            time.sleep(0.02)
            for w in list(live):
                rc = w.proc.poll()
                started, index, running, phase = read_state(w.state)
                if rc is None:
                    if w.last[0] != started:
                        w.last = (started, time.time())
                        continue
                    elif time.time() - w.last[1] > hang_s:
                        w.proc.kill()
                        w.proc.wait()
                        # alone and with more time, to tell a hang from a busy machine
                        try:
                            p = subprocess.run(w.wrapper + [exe, '--only', str(index), '--out', w.out, '--state', w.state] + args,
                                               stdout=subprocess.DEVNULL, stderr=open(w.err, 'wb'), timeout=2 * hang_s,
                                               env=dict(os.environ, **ENV), cwd=wd)
                            if p.returncode:
                                res['violations'].append({'violation': crash_key(p.returncode, w.errtext(), phase), 'case': index,
                                                          'message': w.errtext()[:3000], 'desc': ''})
                            res['inconclusive'].append('case %d was slow' % index)
                        except subprocess.TimeoutExpired:
                            res['violations'].append({'violation': 'hang:' + phase, 'case': index,
                                                      'message': 'the case does not end', 'desc': ''})
                            hung = True   # one is enough, others would cost as long
                            break
                        rc = 'restart'
                    else:
                        continue
                if rc == 0:
                    live.remove(w)
                    continue
                if rc != 'restart':
                    if started == 0:
                        die('%s does not start: exit %s\n%s' % (exe, rc, w.errtext()[-3000:]))
                    text = w.errtext()
                    if rc == 98 and not running:   # thread sanitizer: reports were printed, the run completed
                        res['violations'].append({'violation': crash_key(rc, text, ''), 'case': w.first, 'message': text[:4000], 'desc': ''})
                        live.remove(w)
                        continue
                    res['violations'].append({'violation': crash_key(rc, text, phase), 'case': index, 'message': text[:4000], 'desc': ''})
                w.restarts += 1
                w.first = index + w.step
                if w.restarts > 6 or w.first >= n:
                    live.remove(w)
                    continue
                w.start()
        for w in live:
            w.proc.kill()
            w.proc.wait()
        for w in ws:
            try:
                lines = open(w.out).read().splitlines()
            except OSError:
                lines = []
            for l in lines:
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if 'violation' in d:
                    if d['violation'] in ('valgrind', 'race'):
                        d['message'] = w.errtext()[:3000]
                    res['violations'].append(d)
                else:
                    for a, b in d['counts'].items():
                        res['counts'][a] = res['counts'].get(a, 0) + b
                    for a, b in d['sets'].items():
                        res['sets'].setdefault(a, set()).update(b)
                    res['samples'] += d['samples']
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return res


def fuzz(pid, seed, seconds, workers=JOBS):
    """Runs the check's cases from bytes that libFuzzer evolves for coverage of the library. Stops at the first violation."""
    exe, = build([(pid, 'fuzz')])
    wd = tempfile.mkdtemp(prefix='verif-', dir=BUILD)
    known = [k for k, _ in known_findings(pid)]
    res = {'violations': [], 'stats': {}}
    try:
        corpus = os.path.join(wd, 'corpus')
        os.makedirs(corpus)
        rnd = random.Random(seed)
        for i in range(64):
            open(os.path.join(corpus, 'seed%d' % i), 'wb').write(rnd.randbytes(rnd.choice([4, 16, 64, 256, 1024])))
        ps = []
        for k in range(workers):
            env = dict(os.environ, **ENV)
            env['ASAN_OPTIONS'] += ':handle_abort=0:exitcode=99'
            env.update(PROP_OUT=os.path.join(wd, 'out%d' % k), PROP_STATE=os.path.join(wd, 'state%d' % k), PROP_KNOWN='\n'.join(known))
            cmd = [exe, corpus, '-seed=%d' % (seed * 100 + k + 1), '-max_total_time=%d' % seconds, '-timeout=0', '-rss_limit_mb=0', '-reload=5',
                   '-max_len=4096', '-len_control=20', '-artifact_prefix=%s/art%d-' % (wd, k), '-print_final_stats=1', '-use_value_profile=%d' % (k % 2)]
            ps.append((k, subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                           stderr=open(os.path.join(wd, 'err%d' % k), 'wb'), env=env, cwd=wd)))
        end = time.time() + seconds + 120
        bad = False
        while not bad and any(p.poll() is None for _, p in ps) and time.time() < end:
            time.sleep(0.1)
            bad = any(p.poll() not in (None, 0) for _, p in ps)
        runs = edges = 0
        for k, p in ps:
            hung = p.poll() is None and not bad
            if p.poll() is None:
                p.kill()
            rc = p.wait()
            text = open(os.path.join(wd, 'err%d' % k), 'rb').read().decode('latin1')
            m = re.findall(r'stat::number_of_executed_units: (\d+)', text)
            runs += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', text)
            edges = max(edges, int(m[-1]) if m else 0)
            if rc == 0 or (rc == -9 and not hung):
                continue
            st = open(os.path.join(wd, 'state%d' % k), 'rb').read()
            n, = struct.unpack_from('<Q', st)
            data, phase = st[8:8 + n], st[8 + (1 << 16) + 20:].split(b'\0')[0].decode('latin1')
            try:
                vs = [json.loads(l) for l in open(os.path.join(wd, 'out%d' % k))]
            except (OSError, ValueError):
                vs = []
            vs = [v for v in vs if v['violation'] not in known]
            if hung:
                v = {'violation': 'hang:' + phase, 'message': 'the case does not end', 'desc': ''}
            elif vs:
                v = vs[-1]
            else:
                i = max(0, text.find('ERROR'), text.find('runtime error') - 200)
                v = {'violation': crash_key(rc, text, phase), 'message': text[i:i + 4000], 'desc': ''}
            v.update(case=0, variant='fuzz', input=base64.b64encode(data).decode())
            res['violations'].append(v)
        res['stats'] = {'executed': runs, 'edges_of_the_library': edges, 'corpus': len(os.listdir(corpus)), 'seconds': seconds, 'workers': workers}
        if not runs and not res['violations']:
            die('the fuzzer did nothing: ' + text[-2000:])
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return res


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def git_state():
    p = subprocess.run(['git', '-C', REPO, 'status', '--porcelain', '--untracked-files=no'], stdout=subprocess.PIPE, text=True)
    return p.stdout


def main():
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == '--setup':
        for t in ('g++', 'clang++', 'valgrind'):
            if not shutil.which(t):
                die(t + ' is missing')
        os.makedirs(BUILD, exist_ok=True)
        print('tools found')
        return
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1] == '--build':
        build([(p, VARIANT_OF.get(p, 'asan')) for p in sys.argv[2:]])
        return
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        variant = r.get('variant') or VARIANT_OF.get(pid, 'asan')
        exe, = build([(pid, variant)])
        if variant == 'fuzz':
            with tempfile.NamedTemporaryFile(dir=BUILD) as f:
                f.write(base64.b64decode(r['input']))
                f.flush()
                env = dict(os.environ, PROP_SINGLE='1', **ENV)
                env['ASAN_OPTIONS'] += ':handle_abort=0'
                sys.exit(subprocess.run([exe, f.name, '-timeout=0', '-rss_limit_mb=0'], env=env, cwd=BUILD).returncode)
        if variant == 'plain':
            os.execvpe('valgrind', VALGRIND + [exe, '--only', str(r['case']), '--seed', str(r['seed'])], dict(os.environ, **ENV))
        args = ['--only', str(r['case']), '--seed', str(r['seed'])] + (['--thorough'] if r['tier'] == 'thorough' else [])
        sys.exit(subprocess.run([exe] + args, env=dict(os.environ, **ENV)).returncode)
    sys.path.insert(0, os.path.join(VERIF, 'tools'))
    import plans
    plan = plans.PLANS.get(pid, plans.default)
    res = plan(sys.modules['__main__'], pid, seed, tier)
    finish(pid, seed, tier, res, t0)


def finish(pid, seed, tier, res, t0):
    info = res['info']
    known = known_findings(pid)
    bykey = {}
    for v in res['violations']:
        bykey.setdefault(v['violation'], []).append(v)
    new = {k: v for k, v in bykey.items() if k not in [a for a, _ in known]}
    cases = res['counts'].get('cases', 0)
    sets = {k: len(v) for k, v in res['sets'].items()}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': res.get('level', 'exploration'),
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': sets.get('nontrivial', 0),
            'rule': info['rule'],
            'samples': res['samples'][:8] or ['(none)'],
            'observed': res['counts'],
            'distinct': sets,
            'inconclusive': res['inconclusive'],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    ev['coverage'].update(res.get('extra', {}))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, sort_keys=True)
    for key, text in known:
        print('KNOWN-FINDING: property=%s %s [%s, seen %d times in this run]' % (pid, text, key, len(bykey.get(key, []))))
    if new:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, (k, vs) in enumerate(sorted(new.items())[:12]):
            path = os.path.join(rdir, '%s-%d.json' % (pid, i))
            v = vs[0]
            json.dump({'property': pid, 'key': k, 'tier': tier, 'seed': seed, 'case': v['case'], 'times': len(vs),
                       'variant': v.get('variant'), 'input': v.get('input'), 'message': v.get('message'), 'desc': v.get('desc')}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s (%d times): %s' % (k, len(vs), (v.get('message') or '')[:600].replace('\n', '\n    ')))
        sys.exit(1)
    if not res.get('custom'):
        if cases < 0.9 * res['n'] and not known:
            die('only %d of %d cases ran' % (cases, res['n']))
        for name, per1000 in info['require']:
            if res['counts'].get(name, 0) * 1000 < per1000 * cases:
                die('too little was observed: %s=%d in %d cases' % (name, res['counts'].get(name, 0), cases))
    print('OK property=%s cases=%d distinct=%d wall=%.1fs' % (pid, cases, sets.get('nontrivial', 0), time.time() - t0))


ASSUMPTIONS = [
    'the socket, clock and sleep calls of the library behave as the simulated Linux in harness/sim.cpp',
    'the peers behave as the models of the check, which follow the public EtherNet/IP and CIP formats',
    'single architecture: x86-64, little-endian',
]

if __name__ == '__main__':
    main()
