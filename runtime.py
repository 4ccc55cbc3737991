"""C18, C19: the C runtime of the instrumentation, taken out of the Lisp sources, compiled into generated programs, run, and
read back through the library."""
import concurrent.futures as cf, mmap, os, random, resource, shutil, signal, struct, subprocess, tempfile, threading, time
import lispread, vlib
from lispread import LispError, Sym
from vlib import CheckError, Violation

FMT = ['UNSIGNED', 'SIGNED', 'FLOAT', 'POINTER', 'BLOB']


class Runtime:
    def __init__(self, repo):
        s = self.src = lispread.Source(repo)
        try:
            self.fwd = s.constant('+write-trace-forward-declarations+')
            self.impl = s.constant('+write-trace-implementation+')
            self.entry = s.constant('+write-trace-entry-macro+')
            self.init = s.constant('+write-trace-initialization+')
            self.file = s.constant('+trace-instrument-log-variable-name+')
            self.lock = s.constant('+instrument-log-lock-variable-name+')
            self.hs_env = s.constant('*trace-instrument-handshake-env-name*')
            self.names_var = s.constant('+names-variable-name+')
            self.types_var = s.constant('+types-variable-name+')
        except LispError as e:
            raise CheckError('cannot extract the instrumentation runtime: %s' % e)
        # the order in which the initialization text is filled in
        self.order = ['hs', 'open', 'names', 'types', 'nn', 'nt']
        for _, f in s.all:
            for z in lispread.walk(f):
                if len(z) > 2 and z[0] in ('fmt', 'format') and Sym('+write-trace-initialization+') in z[1:3]:
                    o = []
                    for a in z[z.index('+write-trace-initialization+') + 1:]:
                        t = str(a)
                        o.append('hs' if 'handshake' in t else 'open' if 'open' in t else 'nn' if 'count' in t and 'names' in t else 'nt' if 'count' in t and 'types' in t else 'names' if 'names' in t else 'types' if 'types' in t else '?')
                    if sorted(o) == sorted(self.order):
                        self.order = o

    def setup(self, names, types, out):
        """types: list of (name index, format, size text)."""
        q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
        ni = 'const char *%s[] = {%s}' % (self.names_var, ''.join(q(n) + ', ' for n in names)) if names else 'const char **%s = NULL' % self.names_var
        ti = 'const __trace_type_description %s[] = {%s}' % (self.types_var, ''.join('{%d, %s, %s}, ' % t for t in types)) if types else 'const __trace_type_description *%s = NULL' % self.types_var
        v = dict(hs=self.hs_env, open=out, names=ni, types=ti, nn=len(names), nt=len(types))
        return self.src.format(self.init, [v[k] for k in self.order])


def inc_flags():
    """The runtime as a header for h_rt."""
    rt = Runtime(vlib.REPO)
    t = rt.fwd + '\n' + rt.impl
    f = '%s/rt-%s.h' % (vlib.BUILD, vlib.sha(t))
    if not os.path.exists(f):
        tmp = '%s.%d.%d' % (f, os.getpid(), threading.get_ident())
        with open(tmp, 'w') as o:
            o.write(t)
        os.rename(tmp, f)
    os.utime(f)
    return ['-DRUNTIME_INC="%s"' % f]


# ------------------------------------------------------------------ model of what a program records
INTS = [('char', 'SIGNED', 1), ('int8_t', 'SIGNED', 1), ('wchar_t', 'SIGNED', 4), ('short int', 'SIGNED', 2), ('int16_t', 'SIGNED', 2), ('int', 'SIGNED', 4), ('int32_t', 'SIGNED', 4),
        ('long int', 'SIGNED', 8), ('int64_t', 'SIGNED', 8), ('unsigned char', 'UNSIGNED', 1), ('uint8_t', 'UNSIGNED', 1), ('unsigned short int', 'UNSIGNED', 2), ('uint16_t', 'UNSIGNED', 2),
        ('unsigned int', 'UNSIGNED', 4), ('uint32_t', 'UNSIGNED', 4), ('unsigned long int', 'UNSIGNED', 8), ('uint64_t', 'UNSIGNED', 8), ('size_t', 'UNSIGNED', 8)]
INC = '#include <stdint.h>\n#include <stddef.h>\n#include <wchar.h>\n#include <string.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\n#include <pthread.h>\n#include <sched.h>\n#include <fcntl.h>\n#include <sys/mman.h>\n'


def int_value(r, signed, size):
    b = 8 * size
    k = r.random()
    if k < 0.3:
        u = r.choice([0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << b) - 2])
    elif k < 0.5:
        u = r.getrandbits(min(b, 8))
    else:
        u = r.getrandbits(b)
    return u - (1 << b) if signed and u >> (b - 1) else u


def int_lit(v, ctype):
    if v == -(1 << 63):
        return '(%s)(-9223372036854775807LL - 1)' % ctype
    return '(%s)%d%s' % (ctype, v, 'LL' if v < 1 << 63 else 'ULL')


def cstr(b):
    return '"' + ''.join('\\%03o' % c for c in b) + '"'


class RefMap:
    def __init__(self):
        self.m = {}

    def update(self, a, s):
        if a == 2**64 - 1:
            return
        if s == 0:
            self.m.pop(a, None)
        else:
            self.m[a] = s

    def lookup(self, a):
        if a == 2**64 - 1:
            return None
        k = [b for b in self.m if b <= a]
        if not k:
            return None
        b = max(k)
        return self.m[b] - (a - b) if a - b <= self.m[b] else None


def gen_program(r, rt, out_expr, tus):
    """Returns ({filename: text}, header names, type names, expected points)."""
    cpp = [r.random() < 0.5 for _ in range(tus)]
    names, types, tdesc = [], [], []   # types: (ctype, fmt, size), tdesc for the header

    def name_index(n):
        if n not in names:
            names.append(n)
        return names.index(n)
    many = r.random() < 0.15
    pool = []
    for t in r.sample(INTS, r.randint(0, len(INTS))):
        pool.append(t + ('sizeof(%s)' % t[0],))
    for t in [('float', 'FLOAT', 4, 'sizeof(float)'), ('double', 'FLOAT', 8, 'sizeof(double)'), ('void *', 'POINTER', 8, 'sizeof(void*)'), ('char *', 'POINTER', 8, 'sizeof(void*)'), ('str', 'BLOB', 0, '0'), ('std::string', 'BLOB', 0, '0')]:
        if r.random() < 0.7:
            pool.append(t)
    r.shuffle(pool)
    tindex = {}

    def type_index(t, alias=''):
        key = t[0] + alias
        if key not in tindex:
            tindex[key] = len(tdesc)
            tn = key if r.random() < 0.8 else '*' * r.randint(0, 3) + key + '[%d]' % r.randint(0, 99)
            while tn in names:
                tn += '#'
            tdesc.append((name_index(tn), '__GT_TRACEDB_' + t[1], t[3]))
        return tindex[key]
    if many:
        for k in range(r.choice([300, 3000])):
            name_index('unused_%d_%s' % (k, 'x' * r.randint(0, 60)))
        for k in range(r.choice([50, 400])):
            if pool:
                type_index(r.choice(pool), '_%d' % k)
    weird = ['a.b', 'p->q[3]', 'x y', 'say "hi"', 'back\\slash', '\u00e9t\u00e9', '(*p)', '%s%d%n', '~a~d']
    funcs, calls, expected = [], [], []
    heap = []
    mm = RefMap()

    for p in range(r.choice([0, 1, 2, 5, 12]) if r.random() < 0.9 else 40):
        tu = r.randrange(tus)
        rows = r.choice([1, 1, 2, 3, 7])
        if r.random() < 0.05:
            rows = 200
        decls, stmts, rowvals = [], [], [[] for _ in range(rows)]
        stmt = r.choice([0, 1, r.getrandbits(16), r.getrandbits(40), (1 << 63) | r.getrandbits(23) << 40 | r.getrandbits(20), r.getrandbits(64)])
        k = 0
        for g in range(r.choice([0, 1, 1, 2, 3])):
            kind = r.random()
            if kind < 0.2:
                tabs = []
                for row in range(rows):
                    a = r.choice(heap) if heap and r.random() < 0.5 else r.choice([0, r.getrandbits(12), r.getrandbits(48), r.getrandbits(64)])
                    s = r.choice([0, 1, r.getrandbits(6), r.getrandbits(12), r.getrandbits(40), r.getrandbits(64)])
                    if a + s >= 1 << 64:
                        s = (1 << 64) - 1 - a if r.random() < 0.5 and a else 0
                    heap.append(a)
                    tabs.append((a, s))
                    rowvals[row].append(('size', a, s))
                decls.append('static const uint64_t p%d_a%d[] = {%s};\nstatic const uint64_t p%d_s%d[] = {%s};\n' % (p, k, ', '.join('%dULL' % x[0] for x in tabs), p, k, ', '.join('%dULL' % x[1] for x in tabs)))
                stmts.append('__write_buffer_size(%s, (void *) p%d_a%d[i], p%d_s%d[i]);' % (rt.file, p, k, p, k))
                k += 1
                continue
            usable = [t for t in pool if t[0] != 'std::string' or cpp[tu]]
            blobs = [t for t in usable if t[1] == 'BLOB']
            scal = [t for t in usable if t[1] != 'BLOB']
            chosen = blobs if kind < 0.45 and blobs else scal
            if not chosen:
                continue
            args = []
            cnt = r.choice([1, 2, 3, 5, 9, 30 if r.random() < 0.3 else 4])
            if r.random() < 0.03 and rows < 10:
                cnt = r.choice([128, 255, 256, 257, 300])
            for _ in range(cnt):
                t = r.choice(chosen)
                nm = 'v%d' % r.randrange(6) if r.random() < 0.8 else r.choice(weird)
                ti, ni = type_index(t), name_index(nm)
                vals, var = [], 'p%d_t%d' % (p, k)
                k += 1
                for row in range(rows):
                    if t[1] in ('SIGNED', 'UNSIGNED'):
                        v = int_value(r, t[1] == 'SIGNED', t[2])
                    elif t[1] == 'POINTER':
                        v = r.choice([0, r.getrandbits(48), r.getrandbits(64)] + [min(2**64 - 1, h + r.choice([0, 1, 5, 63, 64, 4000])) for h in r.sample(heap, min(4, len(heap)))])
                    elif t[0] == 'float':
                        v = struct.pack('<f', r.choice([0.0, -0.0, 1.5, float('inf'), float('-inf'), 3.4e38, 1e-45, r.uniform(-1e6, 1e6)]))
                    elif t[0] == 'double':
                        v = r.choice([struct.pack('<d', r.choice([0.0, -0.0, 2.5, float('inf'), float('-inf'), 1.7e308, 5e-324, r.uniform(-1e9, 1e9)])), struct.pack('<Q', 0x7ff8000000000000 | r.getrandbits(51))])
                    elif t[0] == 'str':
                        v = bytes(r.choice(range(1, 256)) for _ in range(r.choice([0, 1, 3, 17, 200 if r.random() < .3 else 5])))
                        if r.random() < 0.02:
                            v = v * 300
                    else:
                        v = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 3, 17, 200 if r.random() < .3 else 5])))
                    vals.append(v)
                    rowvals[row].append(('var', ti, ni, t, v))
                if t[1] in ('SIGNED', 'UNSIGNED'):
                    decls.append('static const %s %s[] = {%s};\n' % (t[0], var, ', '.join(int_lit(v, t[0]) for v in vals)))
                    e = var + '[i]'
                elif t[1] == 'POINTER':
                    decls.append('static const uint64_t %s[] = {%s};\n' % (var, ', '.join('%dULL' % v for v in vals)))
                    e = '(%s) %s[i]' % (t[0], var)
                elif t[1] == 'FLOAT':
                    it = 'uint32_t' if t[2] == 4 else 'uint64_t'
                    decls.append('static const %s %s_b[] = {%s};\n' % (it, var, ', '.join('%dULL' % int.from_bytes(v, 'little') for v in vals)))
                    stmts.append('%s %s; memcpy(&%s, &%s_b[i], sizeof %s);' % (t[0], var, var, var, var))
                    e = var
                elif t[0] == 'str':
                    decls.append('static const char *%s[] = {%s};\n' % (var, ', '.join(cstr(v) for v in vals)))
                    e = '%s[i]' % var
                else:
                    decls.append('static const std::string %s_f(int i) { switch (i) { %s } return std::string(); }\n' % (var, ' '.join('case %d: return std::string(%s, %d);' % (row, cstr(v), len(v)) for row, v in enumerate(vals))))
                    stmts.append('std::string %s = %s_f(i);' % (var, var))
                    e = var
                if t[1] == 'BLOB':
                    args.append('%d, %d, strlen(%s), %s' % (ni, ti, e, e) if t[0] == 'str' else '%d, %d, (%s).length(), (%s).c_str()' % (ni, ti, e, e))
                else:
                    args.append('%d, %d, %s, __GT_TRACEDB_%s, %s' % (ni, ti, t[3], t[1], e))
            stmts.append('%s(%s, %d, %s);' % ('__write_trace_blobs' if chosen is blobs else '__write_trace_variables', rt.file, len(args), ', '.join(args)))
        text = ''.join(decls) + ('extern "C" ' if cpp[tu] else '') + 'void point_%d(int i) { (void) i;\n%s\n%s\n%s\n}\n' % (
            p, '__write_trace_id(%s, %s, %du);' % (rt.file, rt.lock, stmt), '\n'.join(stmts), '__write_end_entry(%s, %s);' % (rt.file, rt.lock))
        funcs.append((tu, text))
        calls.append((p, rows))
        for row in range(rows):
            vs = []
            for x in rowvals[row]:
                if x[0] == 'size':
                    mm.update(x[1], x[2])
                else:
                    _, ti, ni, t, v = x
                    f = FMT.index(t[1])
                    bs = mm.lookup(v) if t[1] == 'POINTER' else None
                    vs.append((f, ni, tdesc[ti][0], len(v) if t[1] == 'BLOB' else t[2], 0 if bs is None else 1, bs or 0, v.hex() if isinstance(v, bytes) else str(v)))
            expected.append((stmt, vs))
    # When the points run: main, a constructor, at exit. Order is preserved.
    early = r.random() < 0.3
    cut = r.randint(0, len(calls)) if early else 0
    late = r.randint(cut, len(calls)) if r.random() < 0.3 else len(calls)
    body = lambda cs: ''.join(' for (int i = 0; i < %d; i++) point_%d(i);\n' % (n, p) for p, n in cs)
    protos = ''.join('void point_%d(int);\n' % p for p, _ in calls)
    mtu = r.randrange(tus)
    files = {}
    for t in range(tus):
        x = rt.fwd + INC + ('#include <string>\n' if cpp[t] else '')
        if t == mtu:
            pr = 'extern "C" {\n%s}\n' % protos if cpp[t] else protos
            x += pr
        x += ''.join(f for u, f in funcs if u == t)
        if t == mtu:
            if early:
                x += 'static void __attribute__((constructor)) first(void) {\n%s}\n' % body(calls[:cut])
            x += 'static void last(void) {\n%s}\n' % body(calls[late:])
            x += rt.entry + 'int main(int argc, char **argv) { (void) argc; (void) argv;\n atexit(last);\n%s return 0; }\n' % body(calls[cut:late])
        x += rt.impl
        if t == mtu:
            x += rt.setup(names, tdesc, out_expr)
        files['t%d.%s' % (t, 'cpp' if cpp[t] else 'c')] = x
    return files, names, [names[d[0]] for d in tdesc], expected


def compile_program(d, files, r, extra=()):
    objs = []
    cc = r.choice([('gcc', 'g++'), ('gcc', 'g++'), ('clang', 'clang++')])
    opt = r.choice(['-O0', '-O0', '-O2'])
    for f in files:
        with open(d + '/' + f, 'w') as h:
            h.write(files[f])
        o = d + '/' + f + '.o'
        p = subprocess.run([cc[f.endswith('.cpp')], opt, '-w', '-c', d + '/' + f, '-o', o] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise Violation('a program using the instrumentation runtime does not compile: ' + p.stdout.decode(errors='replace')[:400], {})
        objs.append(o)
    exe = d + '/prog'
    p = subprocess.run([cc[1]] + objs + ['-o', exe, '-lpthread'] + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Violation('a program using the instrumentation runtime does not link: ' + p.stdout.decode(errors='replace')[:400], {})
    return exe, '%s %s' % (cc[0], opt)


class Dumper:
    def __init__(self, exe):
        self.exe = exe

    def parse(self, lines):
        it = iter(lines)
        out = []
        for l in it:
            if l == 'FAILED':
                out.append(None)
                continue
            if not l.startswith('OK '):
                raise CheckError('unexpected output of the reader: ' + l[:200])
            names, types, pts = [], [], []
            for l in it:
                if l == 'END':
                    break
                c = l[0]
                if c == 'N':
                    names.append(bytes.fromhex(l[2:]))
                elif c == 'T':
                    types.append(bytes.fromhex(l[2:]))
                elif c == 'P':
                    a = l.split(' ')
                    pts.append((int(a[1]), []))
                else:
                    a = l.split(' ')
                    pts[-1][1].append((int(a[1]), int(a[2]), int(a[3]), int(a[4]), int(a[5]), int(a[6]), a[7]))
            out.append((names, types, pts))
        return out

    def popen(self):
        return subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=vlib.san_env(), start_new_session=True)

    def read(self, files, timeout=120):
        p = self.popen()
        try:
            o, e = p.communicate(''.join('%s %d %d\n' % f for f in files).encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise CheckError('the reader did not finish')
        if p.returncode:
            raise Violation('reading a trace written by the runtime ended with status %d: %s' % (p.returncode, e.decode(errors='replace')[:600]), {})
        return self.parse(o.decode().split('\n')[:-1])


def compare(got, names, types, pts, what):
    if got is None:
        raise Violation('%s: the trace could not be read' % what, {})
    n, t, p = got
    if n != [x.encode() for x in names]:
        raise Violation('%s: names differ: %d read, %d declared' % (what, len(n), len(names)), {})
    if t != [x.encode() for x in types]:
        raise Violation('%s: types differ: %d read, %d declared' % (what, len(t), len(types)), {})
    if len(p) != len(pts):
        raise Violation('%s: %d points read, %d recorded' % (what, len(p), len(pts)), {})
    for i, (a, b) in enumerate(zip(p, pts)):
        if a[0] != b[0]:
            raise Violation('%s: statement of point %d is %d, recorded %d' % (what, i, a[0], b[0]), {})
        if a[1] != b[1]:
            for k, (x, y) in enumerate(zip(a[1], b[1])):
                if x != y:
                    raise Violation('%s: point %d variable %d read as %s, recorded %s' % (what, i, k, str(x)[:200], str(y)[:200]), {})
            raise Violation('%s: point %d has %d variables, recorded %d' % (what, i, len(a[1]), len(b[1])), {})


def limits(fsize=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    return f


HERE = threading.local()


def run_prog(cmd, env=None, timeout=60, fsize=None, **kw):
    e = vlib.san_env()
    e.pop('__SEL_HANDSHAKE_FILE', None)
    e.pop('__SEL_TRACE_FILE', None)
    e.update(env or {})
    return subprocess.Popen(cmd, env=e, stdin=subprocess.DEVNULL, stdout=kw.get('stdout', subprocess.DEVNULL), stderr=kw.get('stderr', subprocess.DEVNULL), preexec_fn=limits(fsize), start_new_session=True)


def wait(p, timeout, what):
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None


def c19_case(run, rt, dump, case):
    r = random.Random('%d/C19/%d' % (run.seed, case))
    d = tempfile.mkdtemp(prefix='c19_', dir=run.scratch)
    st = {}
    try:
        mode = r.choice(['file', 'file', 'stdout', 'stderr', 'fifo', 'handshake', 'handshake'])
        out = d + '/' + ('trace' if r.random() < 0.7 else 'tr ace,' + 'y' * r.randint(1, 200))
        if mode == 'handshake' and r.random() < 0.2:
            while len(out) < 700:
                out = os.path.dirname(out) + '/' + 'd' * 180 + '/' + os.path.basename(out)
            os.makedirs(os.path.dirname(out), exist_ok=True)
        fifo = mode == 'fifo' or mode == 'handshake' and r.random() < 0.5
        if fifo:
            out = out.replace(' ', '_')
        expr = dict(stdout='stdout', stderr='stderr', handshake='fopen(buffer, "w")').get(mode, 'fopen(%s, "w")' % ('"' + out + '"'))
        files, names, types, pts = gen_program(r, rt, expr, r.choice([1, 1, 2, 3]))
        san = r.random() < 0.25
        exe, how = compile_program(d, files, r, ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute'] if san else [])
        what = 'program %d (%s%s, output by %s)' % (case, how, ' with sanitizers' if san else '', mode)
        timeout = 60
        errf = d + '/err'
        if mode in ('stdout', 'stderr'):
            with open(out, 'wb') as f, open(errf, 'wb') as g:
                rc = wait(run_prog([exe], stdout=f if mode == 'stdout' else subprocess.DEVNULL, stderr=f if mode == 'stderr' else g), timeout, what)
        else:
            if fifo:
                os.mkfifo(out)
            env = {}
            hs = d + '/handshake'
            style = None
            if mode == 'handshake':
                env[rt.hs_env] = hs
                style = r.choice(['before', 'late', 'empty first', 'before newline', 'late newline'])
                what += ', ' + style

            def write_hs():
                with open(hs, 'w') as f:
                    f.write(out + ('\n' if 'newline' in style else ''))
            if style and style.startswith('before'):
                write_hs()
            elif style == 'empty first':
                open(hs, 'w').close()
            with open(errf, 'wb') as g:
                p = run_prog([exe], env, stderr=g)
            if style and not style.startswith('before'):
                # after the program has looked at least once
                time.sleep(2.3 if style == 'empty first' else 1.3)
                write_hs()
            if fifo:
                q = dump.popen()
                try:
                    o, e = q.communicate(('%s %d 0\n' % (out, 20)).encode(), timeout=60)
                except subprocess.TimeoutExpired:
                    q.kill()
                    q.communicate()
                    raise Violation('%s: reading the pipe did not end' % what, {})
                if q.returncode:
                    raise Violation('%s: reading the pipe ended with status %d: %s' % (what, q.returncode, e.decode(errors='replace')[:400]), {})
                got = dump.parse(o.decode().split('\n')[:-1])[0]
                if got is None:
                    wait(p, 1, what)
                    compare(got, names, types, pts, what)
            rc = wait(p, 30, what)
            if mode == 'handshake' and rc == 0 and os.path.exists(hs):
                raise Violation('%s: the handshake file was not removed' % what, {})
        if rc is None:
            raise Violation('%s: the program did not end' % what, {})
        if rc != 0:
            raise Violation('%s: the program ended with status %d: %s' % (what, rc, open(errf, errors='replace').read()[:500] if os.path.exists(errf) else ''), {})
        if not fifo:
            l = d + '/l'
            os.symlink(out, l)
            got = dump.read([(l, 0, 0)])[0]
        compare(got, names, types, pts, what)
        st = {'programs_' + mode: 1, 'points': len(pts), 'variables': sum(len(p[1]) for p in pts), 'names': len(names), 'types': len(types), 'source_files': len(files), 'with_sanitizers': int(san), 'through_pipes': int(fifo)}
        for p in pts:
            for v in p[1]:
                k = 'values_' + FMT[v[0]].lower() + (str(v[3]) if v[0] != 4 else '')
                st[k] = st.get(k, 0) + 1
                if v[4]:
                    st['pointers_with_buffer'] = st.get('pointers_with_buffer', 0) + 1
        return st, vlib.sha(repr((names, types, pts))) if len(pts) > 0 else None, '%s: %d names, %d types, %d points' % (what, len(names), len(types), len(pts))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ C18
def decode(b, blob_types):
    """Independent decoder. Returns (header ok, points, torn): torn if the data end inside an entry."""
    try:
        n, = struct.unpack_from('<Q', b, 0)
        o = 8 + n
        k, = struct.unpack_from('<I', b, o)
        o += 4
        if o + 12 * k > len(b):
            return False, [], True
        ty = [struct.unpack_from('<III', b, o + 12 * i) for i in range(k)]
        o += 12 * k
    except struct.error:
        return False, [], True
    pts, cur = [], None
    L = len(b)
    cur = [0, []]
    while o < L:
        t = b[o]
        o += 1
        if t == 0:
            pts.append((cur[0], cur[1]))
            cur = [0, []]
            continue
        if t == 1:
            if o + 8 > L:
                return True, pts, True
            cur[0] = struct.unpack_from('<Q', b, o)[0]
            o += 8
        elif t == 2:
            if o + 8 > L:
                return True, pts, True
            ni, ti = struct.unpack_from('<II', b, o)
            o += 8
            if ti >= len(ty):
                return True, pts, 'garbage'
            nm, f, s = ty[ti]
            if f == 4:
                if o + 4 > L:
                    return True, pts, True
                s, = struct.unpack_from('<I', b, o)
                o += 4
            if o + s > L:
                return True, pts, True
            cur[1].append((ni, ti, b[o:o + s]))
            o += s
        elif t == 3:
            if o + 16 > L:
                return True, pts, True
            cur[1].append(('size',) + struct.unpack_from('<QQ', b, o))
            o += 16
        else:
            return True, pts, 'garbage'
    return True, pts, False


def h64(x):
    x = (x + 0x9e3779b97f4a7c15) & (2**64 - 1)
    x = ((x ^ x >> 30) * 0xbf58476d1ce4e5b9) & (2**64 - 1)
    x = ((x ^ x >> 27) * 0x94d049bb133111eb) & (2**64 - 1)
    return x ^ x >> 31


PAT = bytes(k * 31 & 255 for k in range(256))


def blob_of(t, i, lens):
    n = lens[h64(t * 7919 + i) % len(lens)]
    return (PAT * (n // 256 + 2))[(h64(t * 1000003 + i) & 255) * 223 % 256:][:n]


def c18_program(r, rt, threads, points, lens, end, perturb):
    """Threads record (thread, sequence, checks, blob). A counter per thread in shared memory says how many points it has completed."""
    names = ['thread', 'seq', 'check', 'blob', 'f', 'unsigned int', 'long', 'string', 'double']
    types = [(5, '__GT_TRACEDB_UNSIGNED', 'sizeof(unsigned int)'), (6, '__GT_TRACEDB_SIGNED', 'sizeof(int64_t)'), (7, '__GT_TRACEDB_BLOB', '0'), (8, '__GT_TRACEDB_FLOAT', 'sizeof(double)')]
    P = {0: '0', 1: '(perturb(s), 0)', 2: '(perturb(s), 0)'}[perturb]
    main = INC + '''
#include <time.h>
#include <signal.h>
#include <sys/resource.h>
static volatile uint64_t *done; static pthread_barrier_t bar;
static const unsigned lens[] = {%s};
static uint64_t h64(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ULL; x = (x ^ x >> 27) * 0x94d049bb133111ebULL; return x ^ x >> 31; }
static void perturb(uint64_t *s) { *s = h64(*s); unsigned k = *s %% 64; if (k < 8) sched_yield(); else if (k < 11 && %d) { struct timespec t = {0, (long) (*s >> 20) %% 60000}; nanosleep(&t, 0); } else if (k < 30) for (volatile int z = 0; z < (int) (*s >> 40) %% 400; z++); }
static void point(unsigned t, int64_t i, uint64_t *s) {
  unsigned char buf[20000]; unsigned n = lens[h64(t * 7919ULL + i) %% (sizeof lens / sizeof *lens)]; uint64_t b = h64(t * 1000003ULL + i); for (unsigned k = 0; k < n; k++) buf[k] = b + k * 31;
  double f = t * 1e6 + i;
  __write_trace_id(FILE_, LOCK_, t * 100000ULL + i);
  __write_trace_variables(FILE_, 3, 0, 0, sizeof(unsigned int), __GT_TRACEDB_UNSIGNED, t + (unsigned) PP, 1, 1, sizeof(int64_t), __GT_TRACEDB_SIGNED, i + PP, 4, 3, sizeof(double), __GT_TRACEDB_FLOAT, f);
  (void) PP;
  __write_trace_blobs(FILE_, 1, 3, 2, n, buf);
  if (i %% 3 == 0) __write_buffer_size(FILE_, (void *) (uintptr_t) (t * 4096 + 1), i + 1 + PP);
  __write_trace_variables(FILE_, 1, 2, 1, sizeof(int64_t), __GT_TRACEDB_SIGNED, (int64_t) h64(t + i));
  __write_end_entry(FILE_, LOCK_);
  done[t] = i + 1;
}
static void *worker(void *a) { unsigned t = (unsigned) (uintptr_t) a; uint64_t s = t + SEED; pthread_barrier_wait(&bar); for (int64_t i = 0; i < POINTS; i++) { point(t, i, &s); perturb(&s); END } return 0; }
''' % (', '.join(map(str, lens)), perturb == 2)
    ends = {'normal': '', 'kill': '', 'limit': '', '_exit': 'if (t == 0 && i == %d) _exit(0);' % r.randrange(points), 'abort': 'if (t == 0 && i == %d) abort();' % r.randrange(points), 'selfkill': 'if (t == 0 && i == %d) kill(getpid(), SIGKILL);' % r.randrange(points)}
    tail = '''
int main(int argc, char **argv) {
  pthread_t th[64]; int fd = open(argv[1], O_RDWR); done = (volatile uint64_t *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (fd < 0 || done == MAP_FAILED) return 9;
  pthread_barrier_init(&bar, 0, %d);
  for (uintptr_t t = 0; t < %d; t++) if (pthread_create(&th[t], 0, worker, (void *) t)) return 9;
  done[63] = 1;
  for (int t = 0; t < %d; t++) pthread_join(th[t], 0);
  return 0; }
''' % (threads, threads, threads)
    for k, v in (('FILE_', rt.file), ('LOCK_', rt.lock), ('PP', P), ('SEED', '%dULL' % r.getrandbits(60)), ('POINTS', str(points)), ('END', ends[end])):
        main = main.replace(k, v)
    text = rt.fwd + main + rt.entry + tail + rt.impl + rt.setup(names, types, 'stdout')
    return text, names, types


def c18_expected(t, i, lens):
    q = lambda v: struct.pack('<q', v)
    v = h64(t + i)
    vs = [(0, 0, struct.pack('<I', t)), (1, 1, q(i)), (4, 3, struct.pack('<d', t * 1e6 + i)), (3, 2, blob_of(t, i, lens))]
    if i % 3 == 0:
        vs.append(('size', t * 4096 + 1, i + 1))
    vs.append((2, 1, struct.pack('<Q', v)))
    return vs


def c18_verify(raw, got, threads, points, lens, done, complete, what):
    """raw: the bytes written; got: what the library read; done: points completed per thread at the time of death."""
    ok, pts, torn = decode(raw, None)
    if torn == 'garbage':
        raise Violation('%s: entries of different points are mixed up in the file' % what, {})
    if not ok and sum(done):
        raise Violation('%s: %d points were completed, but the file has no complete header (%d bytes)' % (what, sum(done), len(raw)), {})
    if complete and torn:
        raise Violation('%s: the file of a program that ended normally is incomplete' % what, {})
    nxt = [0] * threads
    order = []
    for k, (stmt, vs) in enumerate(pts):
        t, i = divmod(stmt, 100000)
        if t >= threads or i >= points:
            raise Violation('%s: point %d has statement %d, which no thread recorded' % (what, k, stmt), {})
        if i != nxt[t]:
            raise Violation('%s: point %d is number %d of thread %d, expected number %d: %s' % (what, k, i, t, nxt[t], 'lost' if i > nxt[t] else 'recorded twice'), {})
        nxt[t] += 1
        order.append(t)
        if vs != c18_expected(t, i, lens):
            raise Violation('%s: point %d (number %d of thread %d) does not have the content recorded' % (what, k, i, t), {})
    for t in range(threads):
        if nxt[t] < done[t]:
            raise Violation('%s: thread %d had completed %d points, the file has %d' % (what, t, done[t], nxt[t]), {})
        if complete and nxt[t] != points:
            raise Violation('%s: thread %d recorded %d points, the file has %d' % (what, t, points, nxt[t]), {})
    if not ok or torn:
        if got is not None:
            raise Violation('%s: a file ending inside an entry was read as if it were whole' % what, {})
    else:
        if got is None:
            raise Violation('%s: the file could not be read although it ends between entries' % what, {})
        if len(got[2]) != len(pts):
            raise Violation('%s: %d points read, the file has %d' % (what, len(got[2]), len(pts)), {})
        mm = RefMap()
        for k, ((stmt, vs), (gs, gv)) in enumerate(zip(pts, got[2])):
            want = []
            for v in vs:
                if v[0] == 'size':
                    continue
                f = {0: 0, 1: 1, 2: 4, 3: 2}[v[1]]
                val = v[2].hex() if f in (2, 4) else str(int.from_bytes(v[2], 'little', signed=f == 1))
                want.append((f, v[0], 5 + v[1], len(v[2]), 0, 0, val))
            if gs != stmt or gv != want:
                raise Violation('%s: point %d is not read as written' % (what, k), {})
    return len(pts), order, torn


def c18_case(run, rt, dump, case):
    r = random.Random('%d/C18/%d' % (run.seed, case))
    d = tempfile.mkdtemp(prefix='c18_', dir=run.scratch)
    try:
        end = r.choice(['normal', 'kill', 'kill', 'limit', 'limit', '_exit', 'abort', 'selfkill'])
        threads = r.choice([1, 2, 3, 4, 8, 16]) if end != 'limit' else r.choice([1, 1, 2, 4])
        points = r.choice([5, 50, 300]) if end != 'limit' else r.choice([2, 4, 10])
        if end == 'kill':
            points = 6000 // threads
        lens = r.choice([[0, 1, 5], [0, 30, 300], [10, 4090, 4096, 9000], [0, 1, 2, 3, 9, 4, 5, 15000]])
        if end == 'limit':
            lens = r.choice([[0, 1, 5], [0, 1, 40], [3, 4096, 5000], [1, 200, 9000]])
        elif points > 300 and max(lens) > 1000:
            points = 1200 // threads
        tsan = r.random() < 0.4 and end == 'normal'
        text, names, types = c18_program(r, rt, threads, points, lens, end, r.choice([0, 1, 2]) if end != 'kill' else r.choice([0, 1]))
        exe, how = compile_program(d, {'p.c': text} if r.random() < 0.7 else {'p.cpp': text}, random.Random(0) if tsan else r, ['-fsanitize=thread'] if tsan else [])
        what = 'program %d (%s%s, %d threads of %d points, end: %s)' % (case, how, ' -fsanitize=thread' if tsan else '', threads, points, end)
        cnt = d + '/done'
        res, runs = [], []

        def one(k, fsize=None, killAfter=None):
            with open(cnt, 'wb') as f:
                f.write(b'\0' * 4096)
            out, err = '%s/o%d' % (d, k), d + '/err'
            with open(out, 'wb') as f, open(err, 'wb') as g:
                p = run_prog([exe, cnt], stdout=f, stderr=g, fsize=fsize)
            if killAfter is not None:
                with open(cnt, 'r+b') as f:
                    m = mmap.mmap(f.fileno(), 4096)
                    t0 = time.time()
                    while time.time() - t0 < 20 and p.poll() is None:
                        v = struct.unpack('<%dQ' % threads, m[:8 * threads])
                        if sum(v) >= killAfter[0]:
                            break
                        if killAfter[0] > 200:
                            time.sleep(0.0002)
                    t1 = time.perf_counter()
                    while time.perf_counter() - t1 < killAfter[1]:
                        pass
                    p.kill()
                    m.close()
            rc = wait(p, 120, what)
            if rc is None:
                raise Violation('%s: the program did not end' % what, {})
            if tsan and rc == 66 or rc == 96:
                raise Violation('%s: ThreadSanitizer report: %s' % (what, open(err, errors='replace').read()[:600]), {})
            if rc == 9:
                raise CheckError('generated program could not start')
            expect = {'normal': [0], '_exit': [0], 'abort': [-6], 'selfkill': [-9], 'kill': [-9, 0], 'limit': [-25, 0]}[end]
            if rc not in expect:
                raise Violation('%s: the program ended with status %d: %s' % (what, rc, open(err, errors='replace').read()[:300]), {})
            with open(cnt, 'rb') as f:
                done = struct.unpack('<%dQ' % threads, f.read(8 * threads))
            with open(out, 'rb') as f:
                raw = f.read()
            runs.append((out, raw, done, (end == 'normal' or end in ('kill', 'limit') and rc == 0)))
            return rc, len(raw)
        if end == 'kill':
            total = threads * points
            for k in range(6):
                one(k, None, (r.choice([0, 1, r.randrange(50), r.randrange(total)]), r.random() * 0.002))
        elif end == 'limit':
            rc, size = one(0)
            ks = sorted(r.sample(range(size + 1), min(size + 1, 40 if run.tier == 'quick' else 150)))
            for k in ks:
                one(k + 1, k)
        else:
            one(0)
        gots = dump.read([(o, 0, 0) for o, _, _, _ in runs])
        st = {'programs_ended_by_' + end: 1, 'runs': len(runs), 'with_thread_sanitizer': int(tsan)}
        hs = set()
        for (o, raw, done, complete), got in zip(runs, gots):
            n, order, torn = c18_verify(raw, got, threads, points, lens, done, complete, what)
            st['points_checked'] = st.get('points_checked', 0) + n
            st['points_acknowledged'] = st.get('points_acknowledged', 0) + sum(done)
            st['torn_files'] = st.get('torn_files', 0) + bool(torn)
            st['thread_switches'] = st.get('thread_switches', 0) + sum(a != b for a, b in zip(order, order[1:]))
            if n:
                hs.add(vlib.sha(repr(order), len(raw), case))
        return st, hs, '%s: %d runs, %d points' % (what, len(runs), st['points_checked'])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drive(run, cases, fn, prop, workers, budget, first=0):
    rt = Runtime(vlib.REPO)
    exe = run.builder.start('prod', 'h_dump')()
    exa = run.builder.start('asan', 'h_dump')()
    run.configs += ['prod', 'asan']
    t0 = time.time()
    bad = []

    def job(k):
        if time.time() - t0 > budget or bad:
            return None
        try:
            return fn(run, rt, Dumper(exa if k % 4 == 0 else exe), k)
        except Violation as v:
            bad.append((k, v))
            return None
    with cf.ThreadPoolExecutor(workers) as pool:
        for k, res in zip(range(first, first + cases), pool.map(job, range(first, first + cases))):
            if res is None:
                continue
            st, hs, sample = res
            run.evals += 1
            for a, b in st.items():
                run.stats[a] = run.stats.get(a, 0) + b
            for h in (hs if isinstance(hs, set) else [hs] if hs else []):
                run.distinct.add(h)
            if len(run.samples) < 6:
                run.samples.append(sample)
    if bad:
        k, v = min(bad, key=lambda x: x[0])
        v.replay = dict(property=prop, custom=True, case=k, seed=run.seed, tier=run.tier, message=v.msg, config='prod', stderr='')
        raise v


def c18(run):
    drive(run, 160 if run.tier == 'quick' else 6000, c18_case, 'C18', vlib.NCPU, 90 if run.tier == 'quick' else 1500)


def c19(run):
    drive(run, 320 if run.tier == 'quick' else 8000, c19_case, 'C19', 2 * vlib.NCPU, 90 if run.tier == 'quick' else 1500)


def replay(run, rp):
    drive(run, 1, {'C18': c18_case, 'C19': c19_case}[rp['property']], rp['property'], 1, 600, rp['case'])
