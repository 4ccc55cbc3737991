#!/usr/bin/env python3
"""C20: drives the shared library through the binding declared in the Lisp sources, as the Lisp code does, and compares with what was written."""
import ctypes as C, json, operator, os, random, struct, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import binding
from refq import TYPES, TAG, evaluate, gen_pred

libc = C.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes = C.c_void_p, [C.c_size_t]
libc.free.argtypes = [C.c_void_p]


class Failure(Exception):
    pass


def check(c, msg):
    if not c:
        raise Failure(msg)


class Driver:
    def __init__(self, b, lib, scratch, stats):
        self.b, self.lib, self.d, self.st = b, lib, scratch, stats
        self.VI, self.TP, self.PR, self.FV = b.structs['var-info'], b.structs['trace-point'], b.structs['c-predicate'], b.structs['c-free-variable']
        self.fmt = {v: k for k, v in b.enums['type-format'].items()}
        self.fmtv = b.enums['type-format']
        self.kind = b.enums['predicate-kind']
        self.ops = b.operators()

    def alloc(self, type_, n):
        """Foreign memory with a recognisable content."""
        s = max(1, C.sizeof(type_) * n)
        p = libc.malloc(s)
        C.memset(p, 0xAA, s)
        return p

    # ---- reading, as expand-from-foreign does
    def var(self, addr):
        v = self.VI.from_address(addr)
        check(v.format in self.fmt, 'format %d is not in the declared enumeration' % v.format)
        k = self.fmt[v.format]
        t = {':unsigned': C.c_uint64, ':signed': C.c_int64, ':float': C.c_float if v.size == 4 else C.c_double, ':pointer': C.c_uint64, ':blob': C.c_void_p}.get(k)
        check(t is not None, 'a variable of format %s' % k)
        x = t.from_address(addr).value
        if k == ':blob':
            x = C.string_at(x, v.size)
        elif k == ':float':
            x = struct.pack('<f' if v.size == 4 else '<d', x)
        return (v.var_name_index, v.type_name_index, x, v.buffer_size if v.has_buffer_size else None)

    def points(self, ptr, n):
        out = []
        for i in range(n):
            p = self.TP.from_address(ptr + i * C.sizeof(self.TP))
            vs = [self.var(p.vars + k * C.sizeof(self.VI)) for k in range(p.n_vars)]
            aux = [C.c_uint64.from_address(p.aux + 8 * k).value for k in range(p.n_aux)]
            out.append((p.statement, vs, aux))
        self.st['points'] = self.st.get('points', 0) + n
        return out

    def strings(self, ptr, n):
        r = [C.string_at(C.c_void_p.from_address(ptr + 8 * i).value) for i in range(n)]
        libc.free(ptr)
        return r

    def verify(self, t, w, what):
        names, types, pts = w
        L = self.lib
        check(L.n_names(t) == len(names), '%s: %d names, expected %d' % (what, L.n_names(t), len(names)))
        check(self.strings(L.get_names(t), len(names)) == names, '%s: names differ' % what)
        check(L.n_types(t) == len(types), '%s: %d types' % (what, L.n_types(t)))
        check(self.strings(L.get_types(t), len(types)) == types, '%s: types differ' % what)
        n = L.trace_size(t)
        check(n == len(pts), '%s: %d points, expected %d' % (what, n, len(pts)))
        p = L.get_points(t)
        got = self.points(p, n)
        for i, (a, b) in enumerate(zip(got, pts)):
            check(a == b, '%s: point %d is %s, expected %s' % (what, i, str(a)[:300], str(b)[:300]))
        L.free_trace_points(p, n)

    # ---- predicates, as build-predicate does
    def fill(self, addr, e):
        z = self.PR.from_address(addr)
        for f, v in (('kind', 0), ('n_children', 0), ('var_index', 0), ('unsigned_value', 0), ('signed_value', 0), ('float_value', 0.0), ('children', None)):
            setattr(z, f, v)
        if isinstance(e, tuple):
            z.kind = self.kind[self.ops[':' + e[0]]]
            a = e[1:]
            z.n_children = len(a)
            z.children = self.alloc(self.PR, len(a))
            for i, x in enumerate(a):
                self.fill(z.children + i * C.sizeof(self.PR), x)
        elif isinstance(e, str):
            z.kind, z.var_index = self.kind[':var-reference'], 'xyzw'.index(e)
        elif isinstance(e, int) and e >= 0:
            z.kind, z.unsigned_value = self.kind[':unsigned-value'], e
        elif isinstance(e, int):
            z.kind, z.signed_value = self.kind[':signed-value'], e
        else:
            z.kind, z.float_value = self.kind[':float-value'], e

    def predicate(self, e):
        p = self.alloc(self.PR, 1)
        self.fill(p, e)
        return p

    def query(self, db, index, free, hard, soft, seed, keep, mask, stmt, named=()):
        fv = self.alloc(self.FV, len(free))
        arrs = []
        for i, ts in enumerate(free):
            a = self.alloc(C.c_uint32, len(ts))
            for k, t in enumerate(ts):
                C.c_uint32.from_address(a + 4 * k).value = t
            z = self.FV.from_address(fv + i * C.sizeof(self.FV))
            z.n_allowed_types, z.allowed_types = len(ts), a
            arrs.append(a)
        h = self.predicate(hard) if hard is not None else None
        so = [self.predicate(s) for s in soft]
        sa = self.alloc(C.c_void_p, len(so))
        for i, s in enumerate(so):
            C.c_void_p.from_address(sa + 8 * i).value = s
        out, n = self.alloc(C.c_void_p, 1), self.alloc(C.c_uint64, 1)
        C.c_void_p.from_address(out).value = None
        self.lib.query_trace(db, index, fv, len(free), h, sa, len(so), seed, keep, mask, stmt, out, n)
        cnt = C.c_uint64.from_address(n).value
        check(cnt < 10**7, 'number of results %d (not written in full?)' % cnt)
        p = C.c_void_p.from_address(out).value
        r = self.points(p, cnt) if cnt else []
        if cnt:
            self.lib.free_trace_points(p, cnt)
        if h:
            self.lib.free_c_predicate(h)
        for s in so:
            self.lib.free_c_predicate(s)
        for a in arrs + [fv, sa, out, n]:
            libc.free(a)
        self.st['queries'] = self.st.get('queries', 0) + 1
        return [(s, tuple(v)) for s, v, _ in r]




def gen(r, npts, big=False):
    names = [('n%d' % i).encode() + r.randbytes(r.randint(0, 9)).replace(b'\0', b'') for i in range(r.randint(1, 6))]
    types = r.sample(TYPES, r.randint(1, len(TYPES)))
    tn = []
    for i, t in enumerate(types):
        names.append(('%s%d_%d' % (t[0][1:], t[1], i)).encode())
        tn.append(len(names) - 1)
    b = b''.join(n + b'\0' for n in names)
    out = struct.pack('<Q', len(b)) + b + struct.pack('<I', len(types)) + b''.join(struct.pack('<III', tn[i], TAG[t[0]], t[1]) for i, t in enumerate(types))
    pts, raw, mem = [], [], {}
    for i in range(npts):
        stmt = r.choice([i, r.getrandbits(64), (1 << 63) | r.randrange(4) << 40 | r.randrange(5)])
        e = b'\1' + struct.pack('<Q', stmt)
        vs, tv = [], []
        if r.random() < 0.4:
            a, s = r.randrange(1 << 33, 1 << 34) & ~255, r.choice([16, 1 << 33, r.getrandbits(40) + 1])
            mem[a] = s
            e += b'\3' + struct.pack('<QQ', a, s)
        for _ in range(r.randint(0, 4)):
            ni, ti = r.randrange(len(names)), r.randrange(len(types))
            k, s = types[ti]
            e += b'\2' + struct.pack('<II', ni, ti)
            bs = None
            if k == ':blob':
                v = r.randbytes(s or r.choice([0, 1, 7, 300]))
                e += (b'' if s else struct.pack('<I', len(v))) + v
            elif k == ':float':
                v = struct.pack('<f' if s == 4 else '<d', r.choice([0.0, -1.5, 2.0**60, r.randrange(-9000, 9000) / 1024]))
                e += v
            else:
                v = r.choice([r.getrandbits(8 * s), r.getrandbits(3), (1 << 8 * s) - 1, 1 << (8 * s - 1)])
                if k == ':pointer':
                    v = (r.choice(list(mem)) if mem and r.random() < 0.7 else v) + r.choice([0, 1, 16])
                    v &= 2**64 - 1
                    lo = [x for x in mem if x <= v]
                    if lo and v - max(lo) <= mem[max(lo)] and v != 2**64 - 1:
                        bs = mem[max(lo)] - (v - max(lo))
                e += v.to_bytes(s, 'little')
                if k == ':signed' and v >> (8 * s - 1):
                    v -= 1 << 8 * s
            vs.append((ni, tn[ti], v, bs))
            tv.append((ti, k))
        aux = [r.getrandbits(64) for _ in range(r.choice([0, 0, 1, 3]))]
        for a in aux:
            e += b'\4' + struct.pack('<Q', a)
        out += e + b'\0'
        pts.append((stmt, vs, aux))
        raw.append(tv)
    return out, (names, [names[i] for i in tn], pts), raw, types


def one(D, r, case):
    L = D.lib
    f = D.d + '/trace'
    data, w, raw, types = gen(r, r.choice([1, 3, 10, 40]))
    with open(f, 'wb') as h:
        h.write(data)
    path = f.encode()
    cpath = C.create_string_buffer(path)
    pp = C.addressof(cpath)
    # limits and timeouts beyond 32 and 31 bits mean what they say
    t = L.read_trace(pp, r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff]), r.choice([0, 2**32, 2**32 + 1, 2**63, 2**64 - 1]))
    check(t, 'read_trace failed')
    D.verify(t, w, 'read_trace')
    L.free_trace(t)
    lim = r.randint(1, len(w[2]))
    t = L.read_trace(pp, 0, lim)
    D.verify(t, (w[0], w[1], w[2][:lim]), 'read_trace with a limit')
    L.free_trace(t)
    check(not L.read_trace(C.addressof(C.create_string_buffer(path + b'.missing')), 1, 0), 'read_trace of a missing file')
    db = L.create_db()
    want = []
    check(L.add_trace(db, pp, r.choice([0, 0x80000000, 0xffffffff]), r.choice([0, 2**32, 2**33 + 1])) == 1, 'add_trace failed')
    want.append(w)
    check(L.add_trace(db, C.addressof(C.create_string_buffer(path + b'.missing')), 0, 0) == 0, 'add_trace of a missing file did not return 0')
    # points from memory, laid out as the Lisp code does
    names = [b'v%d' % i for i in range(r.randint(1, 4))] + [b'type%d' % i for i in range(3)]
    npts = r.randint(0, 5)
    pts = []
    P = D.alloc(D.TP, npts)
    keep = []
    for i in range(npts):
        vs = []
        nv = r.randint(0, 3)
        V = D.alloc(D.VI, nv)
        keep.append(V)
        for k in range(nv):
            val = r.choice([0, 1, -1, 2**63 - 1, -2**63, r.getrandbits(63), -r.getrandbits(40)])
            tix = len(names) - 3 + (2 if val < 0 else r.randrange(2))
            has = r.random() < 0.5
            bs = r.choice([0, 1, 2**33 + 5, 2**63 + 1]) if has else 0
            z = D.VI.from_address(V + k * C.sizeof(D.VI))
            z.value = val & (2**64 - 1)
            z.format = D.fmtv[':signed' if val < 0 else ':unsigned']
            z.var_name_index, z.type_name_index, z.size = r.randrange(len(names) - 3), tix, 8
            z.has_buffer_size, z.buffer_size = int(has), bs
            vs.append((z.var_name_index, tix, val, bs if has else None))
        z = D.TP.from_address(P + i * C.sizeof(D.TP))
        z.statement = r.choice([i, 2**40 + i, 2**63 | i])
        z.vars, z.n_vars, z.aux, z.n_aux = V, nv, None, 0
        pts.append((z.statement, vs, []))
    NM = D.alloc(C.c_void_p, len(names))
    bufs = [C.create_string_buffer(n) for n in names]
    for i, x in enumerate(bufs):
        C.c_void_p.from_address(NM + 8 * i).value = C.addressof(x)
    check(L.add_trace_points(db, P, npts, NM, len(names)) == 1, 'add_trace_points failed')
    for a in keep + [P, NM]:
        libc.free(a)
    seen = {tix for _, vs, _ in pts for _, tix, _, _ in vs}
    want.append((names, [names[i] for i in sorted(seen)], pts))
    # many traces: indices beyond a byte
    if case % 16 == 0:
        tiny = D.d + '/tiny'
        for k in range(300):
            d2, w2, _, _ = gen(r, 1)
            with open(tiny, 'wb') as h:
                h.write(d2)
            tp = C.create_string_buffer(tiny.encode())
            check(L.add_trace(db, C.addressof(tp), 0, 0) == 1, 'add_trace failed')
            want.append(w2)
    check(L.n_traces(db) == len(want), 'n_traces is %d, expected %d' % (L.n_traces(db), len(want)))
    for i in (range(len(want)) if len(want) < 10 else [0, 1, 255, 256, 257, len(want) - 1]):
        D.verify(L.get_trace(db, i), want[i], 'get_trace %d' % i)
    # queries
    consts = [0, 1, -1, 2.5, 2**33, -2**33, 2**64 - 1, -2**63]
    for p, tv in zip(w[2], raw):
        for v, (ti, k) in zip(p[1], tv):
            if k not in (':blob', ':float'):
                consts.append(v[2])
            if v[3] is not None:
                consts.append(v[3])
    fb, sb = D.b.src.constant('+trace-id-file-bits+'), D.b.src.constant('+trace-id-statement-bits+')
    for _ in range(8):
        nv = r.randint(1, 2)
        free = [r.sample(range(len(types)), r.randint(1, len(types))) for _ in range(nv)]
        hard = gen_pred(r, consts, nv, r.randint(0, 2)) if r.random() < 0.8 else None
        soft = [gen_pred(r, consts, nv, 0) for _ in range(r.choice([0, 0, 1, 3]))]
        mode = r.random()
        mask, stmt = (0, 0) if mode < 0.5 else (((1 << fb) - 1) << sb, r.randrange(4) << sb) if mode < 0.8 else (2**64 - 1, r.choice(w[2])[0])
        exp = []
        for p, tv in zip(w[2], raw):
            if p[0] & mask != stmt:
                continue
            of_point = []
            idx = [[i for i, (ti, k) in enumerate(tv) if ti in fr] for fr in free]
            for a in idx[0]:
                for c in (idx[1] if nv == 2 else [None]):
                    b = [(p[1][i], tv[i][1]) for i in ([a] if nv == 1 else [a, c])]
                    ok = hard is None or evaluate(hard, b)
                    if ok:
                        of_point.append(((p[0], tuple(x[0] for x in b)), sum(bool(evaluate(s, b)) for s in soft)))
            # of each point, the bindings that satisfy the most soft predicates
            exp += [x for x in of_point if x[1] == max(y[1] for y in of_point)]
        got = D.query(db, 0, free, hard, soft, 0, r.choice([1, 2, 128, 255]), mask, stmt)
        a, b = sorted(map(repr, got)), sorted(repr(x[0]) for x in exp)
        check(a == b, 'query over %s with %s and %s: %d results, expected %d: %s / %s' % (free, hard, soft, len(a), len(b), str([x for x in a if x not in b][:3])[:300], str([x for x in b if x not in a][:3])[:300]))
        D.st['query_results'] = D.st.get('query_results', 0) + len(a)
        # without duplicates: the same set, each once
        got = D.query(db, 0, free, hard, soft, 0, 0, mask, stmt)
        check(len(set(map(repr, got))) == len(got) and set(map(repr, got)) <= set(b) and (bool(got) == bool(b)), 'query without duplicates over %s with %s: %d results of %d' % (free, hard, len(got), len(b)))
        # a seed, whichever of its bits are set, means one point
        if len({x[0] for x in exp}) and not soft and not hard:
            got = D.query(db, 0, free, None, [], r.choice([1, 0x100, 0x10000, 0x80000000]), 1, mask, stmt)
            check(len({x[0] for x in got}) <= 1, 'query with a seed returned results of %d statements' % len({x[0] for x in got}))
    # through text and back
    s = L.serialize_trace_db(db)
    check(s, 'serialize_trace_db returned nothing')
    text = C.create_string_buffer(C.string_at(s))
    libc.free(s)
    d2 = L.deserialize_trace_db(C.addressof(text))
    check(d2 and L.n_traces(d2) == len(want), 'restored database')
    for i in (range(len(want)) if len(want) < 10 else [0, 1, 256, len(want) - 1]):
        D.verify(L.get_trace(d2, i), want[i], 'restored trace %d' % i)
    L.free_db(d2)
    L.free_db(db)
    return repr(w)


def main():
    a = sys.argv[1:]
    o = {'--seed': '1', '--from': '0', '--count': '1', '--scratch': '/tmp', '--budget': '0'}
    for i in range(1, len(a) - 1, 2):
        o[a[i]] = a[i + 1]
    st, distinct, samples, ev = {}, set(), [], 0
    rc = 0
    pf = open(o['--progress'], 'wb', 0) if '--progress' in o else None
    t0 = time.time()
    fail = None
    try:
        b = binding.Binding(os.environ.get('VERIF_REPO', '/repo'))
        lib = b.load(os.environ['VERIF_SO'])
        D = Driver(b, lib, o['--scratch'], st)
    except LookupError as e:
        fail = (int(o['--from']), str(e))
    except Exception as e:
        sys.stderr.write('HARNESS-ERROR %r\n' % e)
        return 70
    for k in range(int(o['--from']), int(o['--from']) + int(o['--count'])):
        if fail or float(o['--budget']) and time.time() - t0 > float(o['--budget']):
            break
        if pf:
            pf.seek(0)
            pf.write(struct.pack('<Q', k + 1))
        r = random.Random('%s/C20/%d' % (o['--seed'], k))
        try:
            ev += 1
            x = one(D, r, k)
            distinct.add(int.from_bytes(__import__('hashlib').sha256(x.encode()).digest()[:8], 'little'))
            if len(samples) < 3:
                samples.append('trace ' + x[:300])
        except Failure as e:
            fail = (k, str(e))
        except (OverflowError, C.ArgumentError) as e:
            fail = (k, 'a value does not fit the declared type: %s' % e)
    if fail:
        print('FAIL ' + json.dumps(dict(case=fail[0], msg=fail[1])))
        rc = 3
    elif pf:
        pf.seek(0)
        pf.write(struct.pack('<Q', 0))
    if '--distinct' in o:
        with open(o['--distinct'], 'wb') as h:
            for x in distinct:
                h.write(struct.pack('<Q', x))
    print('STATS ' + json.dumps(dict(evaluations=ev, distinct=len(distinct), n=st, samples=samples)))
    sys.stdout.flush()
    return rc


rc = main()
sys.stdout.flush()
os._exit(rc)
