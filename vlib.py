"""Build and run support for the checks: builds harnesses from /repo's working tree, shards cases, collects what was observed."""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
H = os.path.join(VERIF, 'harness')
INC = ['-I' + REPO + '/cffi-interface', '-I' + REPO + '/cffi-interface/trace-db']
QUIET = ['-w']
LIBS = ['-lboost_iostreams', '-lboost_serialization', '-lpthread', '-ldl']
ASAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
TSAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread']
CONFIGS = {
    # the production build: the compiler and optimisation level of the Makefile
    'prod': dict(cxx='g++', repo=['-O3', '-fPIC'], har=['-O1', '-g1', '-DVERIF_SYSCALLS'], link=[]),
    # the same objects with the allocator interposed
    'alloc': dict(cxx='g++', repo=['-O3', '-fPIC'], har=['-O1', '-g1', '-DVERIF_SYSCALLS', '-DVERIF_MALLOC'], link=[], repo_as='prod'),
    'asan': dict(cxx='clang++', repo=ASAN, har=ASAN + ['-DVERIF_SYSCALLS', '-DVERIF_NEW', '-DVERIF_ASAN'], link=ASAN),
    'vg': dict(cxx='g++', repo=['-O3', '-fPIC'], har=['-O1', '-g1', '-DVERIF_SYSCALLS', '-DVERIF_NEW'], link=[], repo_as='prod'),
    'tsan': dict(cxx='clang++', repo=TSAN, har=TSAN + ['-DVERIF_TSAN'], link=TSAN),
}
WRAPS = {'valgrind': ['valgrind', '-q', '--error-exitcode=95', '--leak-check=no', '--track-origins=no', '--exit-on-first-error=yes', '--num-callers=16', '--soname-synonyms=somalloc=nouserintercepts']}
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def fdigest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def repo_sources():
    return sorted(glob.glob(REPO + '/cffi-interface/*.cpp') + glob.glob(REPO + '/cffi-interface/trace-db/*.cpp'))


def repo_inputs():
    r = []
    for d, ds, fs in os.walk(REPO + '/cffi-interface'):
        ds[:] = [x for x in ds if x not in ('test', 'tests', 'Debug', '.git')]
        r += [os.path.join(d, f) for f in fs if os.path.splitext(f)[1] not in ('.o', '.so', '.a', '.d', '.dSYM', '.lisp', '')]
    return r


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.repo_d = fdigest(repo_inputs())
        self.har_d = fdigest(glob.glob(H + '/*.hpp'))
        self.lock = threading.Lock()
        self.jobs = {}
        self.seconds = 0

    def _run(self, out, cmd, what):
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = out + '.%d.tmp' % os.getpid()
        p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=BUILD)
        if p.returncode:
            raise CheckError('cannot build %s: %s\n%s' % (what, ' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))
        os.rename(tmp, out)
        return out

    def once(self, key, fn):
        with self.lock:
            if key not in self.jobs:
                self.jobs[key] = self.pool.submit(fn)
            return self.jobs[key]

    def repo_objs(self, cfg):
        cfg = CONFIGS[cfg].get('repo_as', cfg)
        c = CONFIGS[cfg]
        fs = []
        for s in repo_sources():
            cmd = [c['cxx'], '-std=c++11'] + c['repo'] + QUIET + INC + ['-c', s]
            out = '%s/r-%s-%s-%s.o' % (BUILD, cfg, os.path.basename(s)[:-4], sha(self.repo_d, *cmd))
            fs.append(self.once(out, lambda o=out, k=cmd, s=s: self._run(o, k, s)))
        return fs

    def har_obj(self, cfg, name, uses_repo=False, flags=()):
        c = CONFIGS[cfg]
        s = '%s/%s.cpp' % (H, name)
        std = '-std=c++11' if uses_repo else '-std=c++17'
        cmd = [c['cxx'], std] + c['har'] + QUIET + (INC if uses_repo else []) + list(flags) + ['-c', s]
        out = '%s/h-%s-%s-%s.o' % (BUILD, cfg, name, sha(self.har_d, fdigest([s]), self.repo_d if uses_repo else '', *cmd))
        return self.once(out, lambda: self._run(out, cmd, s))

    def shared(self, cfg='prod'):
        """The shared library, linked as the Makefile does."""
        objs = [f.result() for f in self.repo_objs(cfg)]
        c = CONFIGS[cfg]
        cmd = [c['cxx'], '-fPIC', '-shared'] + c['link'] + objs + LIBS
        out = '%s/s-%s-%s.so' % (BUILD, cfg, sha(*cmd))
        return self._run(out, cmd, out)

    def start(self, cfg, name, **kw):
        """Begin building; returns a function giving the executable."""
        libs = kw.get('libs', [])
        t0 = time.time()
        fs = self.repo_objs(cfg) + [self.har_obj(cfg, name, kw.get('uses_repo', False), kw.get('flags', ())), self.har_obj(cfg, 'interpose')]

        def finish():
            objs = [f.result() for f in fs]
            c = CONFIGS[cfg]
            cmd = [c['cxx']] + c['link'] + objs + LIBS + list(libs)
            out = '%s/x-%s-%s-%s' % (BUILD, cfg, name, sha(*cmd))
            r = self._run(out, cmd, out)
            self.seconds = max(self.seconds, time.time() - t0)
            return r
        return finish

    def prune(self, keep_s=6 * 3600, limit=3 << 30):
        fs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(BUILD + '/*') if os.path.isfile(f)]
        total = sum(x[1] for x in fs)
        for m, s, f in sorted(fs):
            if total <= limit:
                break
            os.unlink(f)
            total -= s


def san_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=512:detect_stack_use_after_return=1:malloc_context_size=12:quarantine_size_mb=32'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=98'
    e['LSAN_OPTIONS'] = 'exitcode=97:print_suppressions=0'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=96:second_deadlock_stack=1:history_size=4'
    for k in list(e):
        if k.startswith('MALLOC_') or k.startswith('GLIBC_TUNABLES') or k == 'LD_PRELOAD':
            del e[k]
    return e


def sys_limits(as_gb):
    def f():
        os.setsid()
        try:
            if as_gb:
                resource.setrlimit(resource.RLIMIT_AS, (as_gb << 30, as_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        except (ValueError, OSError):
            pass
    return f


class Violation(Exception):
    def __init__(self, msg, replay):
        Exception.__init__(self, msg)
        self.msg, self.replay = msg, replay


def end_session(sid):
    """Kill every process of the session, whatever groups it has made."""
    try:
        os.killpg(sid, signal.SIGKILL)
    except OSError:
        pass
    for _ in range(3):
        found = False
        for n in os.listdir('/proc'):
            if not n.isdigit():
                continue
            try:
                f = open('/proc/%s/stat' % n).read()
                f = f[f.rindex(')') + 2:].split()
                if int(f[3]) == sid and f[0] != 'Z':
                    os.kill(int(n), signal.SIGKILL)
                    found = True
            except (OSError, ValueError):
                pass
        if not found:
            break


class Run:
    """One check run: scratch space, statistics, evidence."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 512 << 20:
                base = None
        self.scratch = tempfile.mkdtemp(prefix='verif-', dir=base)
        self.stats, self.evals, self.samples, self.distinct, self.extra = {}, 0, [], set(), 0
        self.notes = []
        self.builder = Builder()
        self.procs = set()
        self.plock = threading.Lock()
        self.configs = []
        self.stop = False

    def close(self):
        with self.plock:
            ps = list(self.procs)
        for p in ps:
            end_session(p.pid)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def merge(self, st, label=''):
        self.evals += st.get('evaluations', 0)
        for k, v in st.get('n', {}).items():
            if k.startswith('max_'):
                self.stats[k] = max(self.stats.get(k, 0), v)
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for s in st.get('samples', []):
            if len(self.samples) < 6:
                self.samples.append(s)

    def popen(self, cmd, env, cwd, as_gb, timeout):
        # Files rather than pipes: a process that outlives its parent cannot hold up the check.
        fo, fe = tempfile.TemporaryFile(dir=self.scratch), tempfile.TemporaryFile(dir=self.scratch)
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=cwd, preexec_fn=sys_limits(as_gb))
        with self.plock:
            self.procs.add(p)
        try:
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        finally:
            with self.plock:
                self.procs.discard(p)
            end_session(p.pid)
        out = []
        for f in (fo, fe):
            f.seek(0)
            out.append(f.read().decode(errors='replace'))
            f.close()
        return rc, out[0], out[1]

    def shard(self, exe, cfg, arg, frm, count, budget, case_timeout, env=None, as_gb=12, seed=None, wrap=None, stoppable=False):
        if self.stop:
            return dict(rc=0, out='', err='', case=None, stats={}, fail=None, distinct=[], cmd=[], cfg=cfg, arg=arg, frm=frm, count=count)
        d = tempfile.mkdtemp(prefix='s', dir=self.scratch)
        pf, df = d + '/progress', d + '/distinct'
        cmd = (WRAPS[wrap] if wrap else []) + [exe, arg, '--seed', str(self.seed if seed is None else seed), '--from', str(frm), '--count', str(count), '--scratch', d, '--tier', self.tier,
               '--progress', pf, '--distinct', df, '--budget', str(budget), '--case-timeout', str(case_timeout)]
        e = san_env()
        if env:
            e.update(env)
        if e.get('VERIF_LEAKS'):
            e['ASAN_OPTIONS'] = e['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')
        rc, o, err = self.popen(cmd, e, d, as_gb if cfg in ('prod', 'alloc') and not wrap else 0, budget + 2 * case_timeout + 60)
        case = None
        try:
            v = struct.unpack('<Q', open(pf, 'rb').read(8))[0]
            case = v - 1 if v else None
        except (OSError, struct.error):
            pass
        st, fail = {}, None
        for l in o.splitlines():
            if l.startswith('STATS '):
                st = json.loads(l[6:])
            elif l.startswith('FAIL '):
                fail = json.loads(l[5:])
        dist = []
        try:
            b = open(df, 'rb').read()
            dist = struct.unpack('<%dQ' % (len(b) // 8), b)
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        if fail and rc == 3 and stoppable:   # a violation is certain: the other shards need not go on
            with self.plock:
                first, self.stop = not self.stop, True
                ps = list(self.procs) if first else []
            for p in ps:
                end_session(p.pid)
        elif self.stop and stoppable and not fail:
            rc = 0
        return dict(rc=rc, out=o, err=err, case=case, stats=st, fail=fail, distinct=dist, cmd=cmd, cfg=cfg, arg=arg, frm=frm, count=count)

    def cases(self, jobs):
        """jobs: list of dict(exe, cfg, arg, count, budget, case_timeout, shards, env, base). Raises Violation."""
        tasks = []
        for j in jobs:
            n = j['count']
            sh = min(j.get('shards', NCPU), n)
            per = (n + sh - 1) // sh
            for k in range(sh):
                f = k * per
                c = min(per, n - f)
                if c > 0:
                    tasks.append((j, j.get('base', 0) + f, c))
        bad = []
        with cf.ThreadPoolExecutor(NCPU) as pool:
            futs = [pool.submit(self.shard, j['exe'], j['cfg'], j['arg'], f, c, j.get('budget', 300), j.get('case_timeout', 60), j.get('env'), j.get('as_gb', 12), None, j.get('wrap'), True) for j, f, c in tasks]
            for (j, _, _), fu in zip(tasks, futs):
                r = fu.result()
                self.merge(r['stats'])
                self.distinct.update(r['distinct'])
                key = 'cases_' + (j.get('wrap') or j['cfg'])
                self.stats[key] = self.stats.get(key, 0) + r['stats'].get('evaluations', 0)
                if r['rc'] != 0:
                    bad.append((j, r))
        self.stop = False
        for j, r in bad:
            self.judge(j, r)

    def judge(self, j, r):
        rc = r['rc']
        if rc == 70 or 'HARNESS-ERROR' in r['err']:
            raise CheckError('harness error: ' + r['err'][-2000:])
        if rc == 3 and r['fail']:
            self.violation(j, r['fail']['case'], r['fail']['msg'], r['err'])
        if rc in (-signal.SIGALRM, 'timeout'):
            case = r['case']
            if case is None:
                raise CheckError('shard timed out outside a case: %s' % ' '.join(r['cmd']))
            limit = 4 * j.get('case_timeout', 60)
            r2 = self.shard(j['exe'], j['cfg'], j['arg'], case, 1, 0, min(limit, 300), j.get('env'), j.get('as_gb', 12), None, j.get('wrap'))
            if r2['rc'] == 0:
                self.notes.append('case %d of %s was slow (over %d s) and completed on its own' % (case, j['arg'], j.get('case_timeout', 60)))
                return
            if r2['rc'] == 3 and r2['fail']:
                self.violation(j, case, r2['fail']['msg'], r2['err'])
            self.violation(j, case, 'no termination within %d s' % min(limit, 300), r2['err'])
        if rc == -signal.SIGKILL:
            raise CheckError('a harness process was killed (memory?): %s' % ' '.join(r['cmd']))
        if isinstance(rc, int) and (rc < 0 or rc in (96, 97, 98, 99, 134) or rc):
            kind = 'terminated by signal %d' % -rc if isinstance(rc, int) and rc < 0 else {99: 'AddressSanitizer report', 98: 'UndefinedBehaviorSanitizer report', 97: 'LeakSanitizer report', 96: 'ThreadSanitizer report', 95: 'valgrind memcheck report'}.get(rc, 'exit status %s' % rc)
            m = re.search(r'(ERROR: [^\n]*|==\d+== (?:Conditional|Use of|Invalid|Syscall)[^\n]*|WARNING: ThreadSanitizer[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion[^\n]*|terminate called[^\n]*)', r['err'])
            if m and m.group(1).startswith('WARNING: ThreadSanitizer'): kind = 'ThreadSanitizer report'
            self.violation(j, r['case'], kind + (': ' + m.group(1).strip() if m else ''), r['err'], frm=r['frm'], count=r['count'])

    def violation(self, j, case, msg, err, frm=None, count=None):
        raise Violation(msg, dict(property=self.prop, harness=os.path.basename(j['exe']), config=j['cfg'], harness_name=j['harness'], arg=j['arg'], seed=self.seed, tier=self.tier,
                                  case=case, frm=frm, count=count, message=msg, env=j.get('env'), wrap=j.get('wrap'), stderr=err[-6000:]))

    def evidence(self, rule, assumptions=(), violations=0, more=None):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct) + self.extra, rule=rule, samples=self.samples[:6] or ['(none)'], observed=dict(sorted(self.stats.items())),
                   builds=self.configs, build_s=round(self.builder.seconds, 1))
        if self.notes:
            cov['notes'] = self.notes
        if more:
            cov.update(more)
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=violations)
        p = '%s/evidence/%s.json' % (VERIF, self.prop)
        with open(p + '.tmp', 'w') as f:
            json.dump(e, f, indent=1)
            f.write('\n')
        os.rename(p + '.tmp', p)


def known_findings():
    r = []
    try:
        for l in open(VERIF + '/known_findings.txt'):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)$', l)
            if m:
                r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return r


def write_replay(prop, replay):
    os.makedirs(OUT, exist_ok=True)
    p = '%s/%s-%s.json' % (OUT, prop, sha(json.dumps(replay, sort_keys=True, default=str))[:12])
    with open(p, 'w') as f:
        json.dump(replay, f, indent=1, default=str)
        f.write('\n')
    return p
