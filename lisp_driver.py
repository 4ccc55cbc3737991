#!/usr/bin/env python3
"""C23, C26, C27: runs the repository's own Lisp database code (evaluator in minilisp.py, foreign interface in lispffi.py)
against the shared library built from the current tree, under random histories, and compares with a model."""
import hashlib, itertools, json, os, random, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import minilisp as ml, lispffi
from minilisp import S, Cons, Unsupported, lst, items, one, show, Single, Cond, seq
from lispffi import Misuse, Ptr, Bag
from refq import TYPES, TAG, evaluate, gen_pred

K = {k: S(':' + k) for k in ('c', 'f', 'scopes', 'aux', 'trace', 'results', 'pick', 'file-id', 'predicate', 'soft-predicates', 'filter', 'timeout', 'max-trace-points')}


class Failure(Exception):
    pass


def check(c, msg):
    if not c:
        raise Failure(msg)


def canon(x):
    """Comparable form of a Lisp value."""
    if isinstance(x, bool):
        return x
    if isinstance(x, Single):
        return ('f4', struct.pack('<f', x))
    if isinstance(x, float):
        return ('f8', struct.pack('<d', x))
    if isinstance(x, Cons):
        out, tail = lispffi.items_dotted(x)
        return ('l', tuple(canon(y) for y in out), canon(tail))
    if isinstance(x, list):
        return ('v', tuple(canon(y) for y in x))
    if isinstance(x, ml.Sym):
        return ('y', x.name)
    if x is None or isinstance(x, (int, str)):
        return x
    raise Failure('unexpected object %s' % show(x)[:80])


def point(p, what):
    """A point as the database returns it: dictionary of canonical parts."""
    out = {}
    for kv in items(p):
        if kv is None:      # allowed in association lists
            continue
        check(isinstance(kv, Cons) and isinstance(kv.car, ml.Sym), '%s: malformed point %s' % (what, show(p)[:200]))
        out.setdefault(kv.car.name, kv.cdr)
    for k in (':c', ':scopes'):
        check(k in out, '%s: point without %s: %s' % (what, k, show(p)[:200]))
    sc = [tuple(canon(y) for y in seq(v)) for v in items(out[':scopes'])]
    return (canon(out[':c']), canon(out.get(':f')), tuple(sc), tuple(canon(y) for y in seq(out.get(':aux'))))


# ------------------------------------------------------------------ traces
WORDS = ['x', 'X', 'y', 'len', 'Len', 'buf', 'p', 'i', 'count', 'a b', 'é', 'long_name_of_a_variable', 'v"q', '%s', '~a', 'n\\m']
TNAMES = ['int', 'INT', 'char', 'unsigned', 'char*', 'double', 'float', 'string', 'struct s', 'long', 'short', 'size_t', 'ü']


class Trace:
    """A binary trace and what is expected of it."""
    def __init__(self, r, npts, dup_types=True):
        nv = r.sample(WORDS, r.randint(1, 6))
        self.names = list(nv)
        self.types = []
        tn = r.sample(TNAMES, r.randint(1, 6))
        ts = r.sample(TYPES, r.randint(1, 7))
        self.tname = []
        for i, t in enumerate(ts):
            n = r.choice(tn) if dup_types and r.random() < 0.3 else tn[i % len(tn)]
            if n not in self.names:
                self.names.append(n)
            self.types.append(t)
            self.tname.append(n)
        b = b''.join(n.encode() + b'\0' for n in self.names)
        self.out = [struct.pack('<Q', len(b)) + b + struct.pack('<I', len(ts)) + b''.join(struct.pack('<III', self.names.index(self.tname[i]), TAG[t[0]], t[1]) for i, t in enumerate(ts))]
        self.pts, mem = [], {}
        locs = [r.randrange(6) for _ in range(3)]
        for i in range(npts):
            m = r.random()
            stmt = r.choice(locs) if m < 0.3 else (1 << 63) | r.randrange(3) << 40 | r.choice(locs) if m < 0.8 else r.choice([r.getrandbits(63), (1 << 63) | r.getrandbits(63), r.randrange(3) << 40 | r.choice(locs), 2**63, 2**63 - 1])
            e = b'\1' + struct.pack('<Q', stmt)
            vs = []
            if r.random() < 0.4:
                a, s = r.randrange(1 << 33, 1 << 34) & ~255, r.choice([16, 1 << 33, r.getrandbits(40) + 1])
                mem[a] = s
                e += b'\3' + struct.pack('<QQ', a, s)
            for _ in range(r.randint(0, 4)):
                ni, ti = r.randrange(len(nv)), r.randrange(len(ts))
                k, s = ts[ti]
                e += b'\2' + struct.pack('<II', ni, ti)
                bs = None
                if k == ':blob':
                    n = s or r.choice([1, 2, 7, 300])
                    raw = bytes(r.choice(b'abcXYZ 0-9\n\0"\\~') for _ in range(n)) if r.random() < 0.8 else bytes([0xff]) + r.randbytes(n - 1)
                    e += (b'' if s else struct.pack('<I', len(raw))) + raw
                    try:
                        v = raw.decode()
                        val = v
                    except UnicodeDecodeError:
                        val = ('v', tuple(x - 256 if x > 127 else x for x in raw))
                    v = raw
                elif k == ':float':
                    v = struct.pack('<f' if s == 4 else '<d', r.choice([0.0, -1.5, 2.0**60, r.randrange(-9000, 9000) / 1024]))
                    e += v
                    val = ('f%d' % s, v)
                else:
                    v = r.choice([r.getrandbits(8 * s), r.getrandbits(3), (1 << 8 * s) - 1, 1 << (8 * s - 1)])
                    if k == ':pointer':
                        v = (r.choice(list(mem)) if mem and r.random() < 0.7 else v) + r.choice([0, 1, 16])
                        v &= 2**64 - 1
                        lo = [x for x in mem if x <= v]
                        if lo and v - max(lo) <= mem[max(lo)] and v != 2**64 - 1:
                            bs = mem[max(lo)] - (v - max(lo))
                    e += v.to_bytes(s, 'little')
                    if k == ':signed' and v >> (8 * s - 1):
                        v -= 1 << 8 * s
                    val = v
                vs.append(dict(name=nv[ni], tname=self.tname[ti], ti=ti, fmt=k, raw=v, bs=bs, val=val))
            aux = [r.getrandbits(64) for _ in range(r.choice([0, 0, 1, 3]))]
            for a in aux:
                e += b'\4' + struct.pack('<Q', a)
            self.out.append(e + b'\0')
            self.pts.append((stmt, vs, aux))

    def data(self):
        return b''.join(self.out)


def cf(stmt, sb, fb):
    if stmt >> 63:
        return stmt & ((1 << sb) - 1), stmt >> sb & ((1 << fb) - 1)
    return stmt, None


def expect(p, sb=40, fb=23):
    c, f = cf(p[0], sb, fb)
    return (c, f, tuple((v['name'], v['tname'], v['val'], v['bs']) for v in p[1]), tuple(p[2]))


class World:
    def __init__(self, repo, so, scratch, stats):
        self.repo, self.so, self.d, self.st = repo, so, scratch, stats

    def fresh(self, r):
        self.I = lispffi.interpreter(self.repo, self.so)
        self.I.rng = random.Random(r.getrandbits(64))
        self.I.limit = 40000000
        self.F = self.I.ffi
        self.F.decode_restart = S('store-as-byte-array')
        for n in ('add-trace', 'add-trace-points', 'get-trace', 'n-traces', 'trace-size', 'trace-types', 'query-trace', 'restrict-to-file', 'read-binary-trace'):
            if S(n) not in self.I.g.f:
                raise Unsupported('no function ' + n)

    def call(self, name, *args):
        self.st['lisp_calls'] = self.st.get('lisp_calls', 0) + 1
        try:
            return one(self.I.call(self.I.g.f[S(name)], list(args), S(name)))
        except Cond as c:
            raise Failure('(%s%s) signals %s' % (name, ''.join(' ' + show(a)[:60] for a in args[1:]), c.msg[:300]))

    def make(self, cls, *args):
        return one(ml.BUILTIN[S('make-instance')](self.I, S(cls), *args))


def K_(**kw):
    out = []
    for k, v in kw.items():
        out += [K[k.replace('_', '-')], v]
    return out


def meta(r, i):
    m = [Cons(S(':id'), i), Cons(S(':input'), 'run %d' % i)]
    if r.random() < 0.3:
        m.append(lst([S(':args'), 'a', r.randrange(100)]))
    return lst(m if r.random() < 0.9 else [])


class Binary:
    """A binary database with its model: list of (points, metadata, type names, Trace or None)."""
    def __init__(self, W, r):
        self.W, self.r = W, r
        self.db = W.make('binary-trace-db')
        self.model = []
        self.n = 0

    def add(self):
        W, r = self.W, self.r
        k = r.random()
        self.n += 1
        m = meta(r, self.n)
        if k < 0.55:
            t = Trace(r, r.choice([0, 1, 3, 8, 20]))
            f = W.d + '/trace'
            data = t.data()
            lim = r.choice([None, None, 0, 1, 2, len(t.pts), len(t.pts) + 1, 2**40])
            bad = r.random() < 0.15
            if bad:
                data = data[:r.randrange(8)] if r.random() < 0.5 else data + b'\1\2'
                if r.random() < 0.3:
                    f += '.missing'
                lim = None
            with open(W.d + '/trace', 'wb') as h:
                h.write(data)
            a = [self.db, f, r.choice([0, 0, 1, 100]), m] + (K_(max_trace_points=lim) if lim is not None or r.random() < 0.3 else [])
            ok = W.call('add-trace', *a)
            check((ok is not None) == (not bad), 'add-trace of %s trace returns %s' % ('an unreadable' if bad else 'a good', show(ok)))
            if not bad:
                self.model.append(dict(pts=t.pts[:lim] if lim else t.pts, meta=canon(m), types=t.tname, tr=t))
            W.st['adds_failed' if bad else 'adds_file'] = W.st.get('adds_failed' if bad else 'adds_file', 0) + 1
        else:
            names = r.sample(WORDS, r.randint(1, 5))
            tns = r.sample(TNAMES, r.randint(1, 4))
            pts, lp = [], []
            for i in range(r.choice([0, 1, 2, 6])):
                vs, lv = [], []
                for _ in range(r.randint(0, 3)):
                    val = r.choice([0, 1, -1, 2**63 - 1, -2**63, r.getrandbits(63), -r.getrandbits(40)])   # in-memory values are signed
                    has = r.random() < 0.5
                    bs = r.choice([0, 1, 2**33 + 5, 2**63 + 1]) if has else None
                    v = dict(name=r.choice(names), tname=r.choice(tns), ti=None, fmt=':signed' if val < 0 else ':unsigned', raw=val, bs=bs, val=val)
                    x = [v['name'], v['tname'], val] + ([bs] if has or r.random() < 0.5 else [])
                    lv.append(x if r.random() < 0.5 else lst(x))
                    vs.append(v)
                f = r.choice([None, None, 0, 1, 2])
                c = r.choice([i, 3, 2**39])
                al = [Cons(K['c'], c)] + ([Cons(K['f'], f)] if f is not None or r.random() < 0.5 else []) + ([Cons(K['scopes'], lst(lv))] if lv or r.random() < 0.5 else [])
                lp.append(lst(al))
                pts.append((c if f is None else 1 << 63 | f << 40 | c, vs, []))
            if r.random() < 0.8:
                W.call('add-trace-points', self.db, lst(lp), m)
            else:
                m = None
                W.call('add-trace-points', self.db, lst(lp))
            self.model.append(dict(pts=pts, meta=canon(m), types=None, tr=None))
            W.st['adds_points'] = W.st.get('adds_points', 0) + 1

    def split(self, res, key, what):
        """((key . points) . metadata)"""
        check(isinstance(res, Cons) and isinstance(res.car, Cons) and res.car.car is K[key], '%s returns %s' % (what, show(res)[:100]))
        return [point(p, what) for p in items(res.car.cdr)], canon(res.cdr)

    def verify(self, db=None, file=None, deep=True):
        W, db = self.W, db if db is not None else self.db
        n = W.call('n-traces', db)
        check(n == len(self.model), 'n-traces is %s after %d successful adds' % (show(n), len(self.model)))
        for i, m in enumerate(self.model):
            w = [expect(p) for p in m['pts']]
            if file is None:
                check(W.call('trace-size', db, i) == len(w), 'trace-size of trace %d is %s, expected %d' % (i, show(W.call('trace-size', db, i)), len(w)))
            ty = [x for x in items(W.call('trace-types', db, i))]
            if m['types'] is not None:
                check(ty == m['types'], 'trace-types of trace %d is %s, expected %s' % (i, ty, m['types']))
            else:
                check(set(ty) == {v['tname'] for p in m['pts'] for v in p[1]}, 'trace-types of trace %d is %s, expected the types of its variables' % (i, ty))
            fid = file if file is not None else self.r.choice([None, None, 0, 1, 2, 7])
            for kw in ([], K_(file_id=fid)) if file is None else ([],):
                use = fid if kw or file is not None else None
                got, md = self.split(W.call('get-trace', db, i, *kw), 'trace', 'get-trace')
                ww = [p for p in w if use is None or p[1] == use]
                check(len(got) == len(ww), 'get-trace %d%s returns %d points, expected %d' % (i, ' of file %s' % use if use is not None else '', len(got), len(ww)))
                for j, (a, b) in enumerate(zip(got, ww)):
                    check(a == b, 'get-trace %d: point %d is %s, expected %s' % (i, j, str(a)[:300], str(b)[:300]))
                check(md == m['meta'], 'get-trace %d carries metadata %s, expected %s' % (i, str(md)[:100], str(m['meta'])[:100]))
                W.st['points'] = W.st.get('points', 0) + len(got)
        # indices out of range are refused
        for i in (-1, len(self.model)):
            for g in ('trace-size', 'trace-types', 'get-trace'):
                try:
                    W.I.call(W.I.g.f[S(g)], [db, i], S(g))
                except Cond:
                    continue
                raise Failure('%s accepts index %d of %d traces' % (g, i, len(self.model)))

    def store(self):
        W = self.W
        bag = Bag()
        try:
            ml.BUILTIN[S('store-object')](W.I, self.db, bag)
            r = ml.BUILTIN[S('restore-object')](W.I, bag)
        except Cond as c:
            raise Failure('storing and restoring a database signals %s' % c.msg[:300])
        check(isinstance(r, ml.Inst) and r.cls.name == 'binary-trace-db', 'restoring a database gives %s' % show(r)[:80])
        W.st['stores'] = W.st.get('stores', 0) + 1
        return r

    # ---- queries
    def query(self, db=None, file=None):
        W, r = self.W, self.r
        cand = [i for i, m in enumerate(self.model) if m['pts']]
        if not cand:
            return
        i = r.choice(cand)
        m = self.model[i]
        alltn = sorted({v['tname'] for p in m['pts'] for v in p[1]} | set(m['types'] or ()))
        nv = r.choice([0, 1, 1, 1, 2, 2])
        vt = []
        for _ in range(nv):
            s = r.sample(alltn, r.randint(0, len(alltn))) + ([r.choice(['no such type', 'Int', ''])] if r.random() < 0.2 else [])
            r.shuffle(s)
            vt.append(s)
        consts = [0, 1, -1, 2.5, 2**33, -2**33, 2**64 - 1, -2**63] + [v['raw'] for p in m['pts'] for v in p[1] if isinstance(v['raw'], int)] + [v['bs'] for p in m['pts'] for v in p[1] if v['bs'] is not None]
        hard = gen_pred(r, consts, nv, r.randint(0, 2)) if nv and r.random() < 0.7 else None
        soft = [gen_pred(r, consts, nv, 0) for _ in range(r.choice([0, 0, 1, 3]))] if nv else []
        fid = r.choice([None, None, None, 0, 1, 2]) if r.random() < 0.8 else r.choice([x for x in (cf(p[0], 40, 23)[1] for p in m['pts'])])
        pick = r.random() < 0.2
        fl = r.choice([None, None, lambda f, c, *vs: True, lambda f, c, *vs: c % 2 == 0, lambda f, c, *vs: f is not None, lambda f, c, *vs: all(isinstance(x[2], int) and x[2] & 1 for x in vs), lambda f, c, *vs: not any(x[0] == 'x' for x in vs)])
        seen = []

        def lfl(*a):
            vs = [[None if False else y for y in seq(v)] for v in a[2:]]
            seen.append(len(vs))
            return ml.b(fl(*(list(a[:2]) + vs)))
        kw = []
        if pick:
            kw += K_(pick=ml.T)
        if fid is not None:
            kw += K_(file_id=fid)
        if hard is not None:
            kw += K_(predicate=self.sexp(hard))
        if soft:
            kw += K_(soft_predicates=lst(self.sexp(s) for s in soft))
        if fl is not None:
            kw += K_(filter=lfl)
        force = pick and r.random() < 0.3
        if force:       # every value of the random source is possible
            old = W.I.rng
            W.I.rng = Zero()
        names = lst(S(x) for x in 'xyzw'[:nv])
        res = W.call('query-trace', db if db is not None else self.db, i, names, lst(lst(s) for s in vt), *kw)
        if force:
            W.I.rng = old
        what = 'query of %d variables%s%s%s%s%s' % (nv, ' with predicate %s' % (hard,) if hard is not None else '', ' and %d soft' % len(soft) if soft else '', ' in file %s' % fid if fid is not None else '', ' picked' if pick else '', ' filtered' if fl else '')
        got, md = self.split(res, 'results', what)
        check(md == m['meta'], '%s carries metadata %s, expected %s' % (what, str(md)[:100], str(m['meta'])[:100]))
        eff = fid if fid is not None else file
        per = []      # expected, per point
        for p in m['pts']:
            c, f = cf(p[0], 40, 23)
            if eff is not None and f != eff:
                continue
            cands = []
            for b in itertools.product(*[[v for v in p[1] if v['tname'] in s] for s in vt]):
                bd = [((v['name'], v['tname'], v['raw'], v['bs'], v['ti']), v['fmt']) for v in b]
                if hard is None or evaluate(hard, bd):
                    cands.append((b, sum(bool(evaluate(s, bd)) for s in soft)))
            best = max([x[1] for x in cands], default=0)
            out = []
            for b, n in cands:
                if n == best:
                    x = (c, f, tuple((v['name'], v['tname'], v['val'], v['bs']) for v in b))
                    if fl is None or fl(f, c, *[[v['name'], v['tname'], v['val'], v['bs']] for v in b]):
                        out.append(x + (tuple(v['ti'] for v in b) if fl is None else None,))   # without filter, types count by their position in the header
            per.append((p[0], out))
        W.st['queries'] = W.st.get('queries', 0) + 1
        W.st['query_results'] = W.st.get('query_results', 0) + len(got)
        g3 = [x[:3] for x in got]
        if pick:
            # exactly the results of some one point
            cand_sets = [self.groups(o) for _, o in per] or [self.groups([])]
            check(any(self.matches(g3, gs) for gs in cand_sets), '%s: the %d results are not those of one point' % (what, len(g3)))
            return repr((i, vt, hard, soft, fid, 'pick', len(got)))
        gs = self.groups([x for _, o in per for x in o])
        nres = sum(len({x[3] for x in o}) for o in gs.values())
        for x in g3:
            check(self.key(x) in gs, '%s: unexpected result %s' % (what, str(x)[:300]))
        for k in gs:
            check(any(self.key(x) == k for x in g3), '%s: missing result %s' % (what, str(gs[k][0])[:300]))
        check(self.matches(g3, gs), '%s: %d results, expected %d, one per statement and binding' % (what, len(g3), nres))
        return repr((i, vt, hard, soft, fid, fl is not None, sorted(map(str, g3))[:4]))

    @staticmethod
    def key(x):
        return (x[0], x[1], tuple((v[0], v[1]) for v in x[2]))

    def groups(self, out):
        d = {}
        for x in out:
            d.setdefault(self.key(x), []).append(x)
        return d

    def matches(self, got, gs):
        n = {}
        for x in got:
            k = self.key(x)
            if k not in gs or x not in [y[:3] for y in gs[k]]:
                return False
            n[k] = n.get(k, 0) + 1
        return all(n.get(k, 0) == len({x[3] for x in o}) for k, o in gs.items())

    def sexp(self, e):
        if isinstance(e, tuple):
            op = e[0]
            if self.r.random() < 0.3:
                op = ':' + op
            return lst([S(op)] + [self.sexp(x) for x in e[1:]])
        if isinstance(e, str):
            return S(e)
        return e


class Zero(random.Random):
    """The smallest value the random source can give."""
    def randrange(self, a, b=None, s=1):
        return 0 if b is None else a


# ------------------------------------------------------------------ the s-expression database
def sx(p):
    c, f, sc, aux = p
    def val(v):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"') if isinstance(v, str) else 'nil' if v is None else str(v)
    s = '((:c . %d)' % c
    if f is not None:
        s += ' (:f . %d)' % f
    s += ' (:scopes' + ''.join(' #(%s)' % ' '.join(val(y) for y in v) for v in sc) + ')'
    if aux:
        s += ' (:aux . (%s))' % ' '.join(map(str, aux))
    return s + ')'


class Sexp:
    def __init__(self, W, r):
        self.W, self.r = W, r
        self.db = W.make('sexp-trace-db')
        self.model, self.n = [], 0

    def gen(self):
        r = self.r
        pts = []
        for i in range(r.choice([1, 1, 3, 8])):
            sc = [(r.choice(WORDS[:6]), r.choice(TNAMES[:5]), r.choice([0, -5, 2**70, 'text']), r.choice([None, 4])) for _ in range(r.randint(0, 3))]
            pts.append((r.randrange(5), r.choice([None, 0, 1, 2]), tuple(sc), tuple(r.randrange(9) for _ in range(r.choice([0, 0, 2])))))
        return pts

    def add(self):
        W, r = self.W, self.r
        self.n += 1
        m = meta(r, self.n)
        pts = self.gen()
        if r.random() < 0.6:
            lim = r.choice([None, None, 1, 2, len(pts), len(pts) + 5])
            empty = r.random() < 0.1
            with open(W.d + '/s', 'w', encoding='utf-8') as h:
                h.write('' if empty else r.choice([' ', '\n']).join(sx(p) for p in pts))
            n0 = len(self.model)
            ok = W.call('add-trace', self.db, W.d + '/s', r.choice([1, 5]), m, *(K_(max_trace_points=lim) if lim is not None else []))
            if empty:
                check(ok is None, 'add-trace of an empty trace returns %s' % show(ok)[:60])
            else:
                check(ok is not None, 'add-trace of a good trace returns NIL')
                self.model.append(dict(pts=pts[:lim], meta=canon(m)))
        else:
            l = ml.Reader('(' + ' '.join(sx(p) for p in pts) + ')', 0, False).read()
            W.call('add-trace-points', self.db, l, m)
            self.model.append(dict(pts=pts, meta=canon(m)))
        W.st['adds_sexp'] = W.st.get('adds_sexp', 0) + 1

    def contents(self, db, kw=()):
        W = self.W
        n = W.call('n-traces', db)
        out = []
        for i in range(n):
            res = W.call('get-trace', db, i, *kw)
            check(isinstance(res, Cons) and isinstance(res.car, Cons) and res.car.car is K['trace'], 'get-trace returns %s' % show(res)[:100])
            out.append((tuple(point(p, 'get-trace') for p in items(res.car.cdr)), canon(res.cdr), i))
        return out

    @staticmethod
    def norm(p):
        return p

    def order(self, db=None):
        """Which of the added traces each index shows."""
        got = self.contents(db if db is not None else self.db)
        want = [(tuple(m['pts']), m['meta']) for m in self.model]
        check(len(got) == len(want), 'n-traces is %d after %d adds' % (len(got), len(want)))
        a, b = sorted(repr(x[:2]) for x in got), sorted(repr(x) for x in want)
        check(a == b, 'the traces with their metadata are not those added: %s / %s' % (str([x for x in a if x not in b][:1])[:400], str([x for x in b if x not in a][:1])[:400]))
        return [got[i][0] for i in range(len(got))], [got[i][1] for i in range(len(got))]

    def verify(self):
        W, r = self.W, self.r
        pts, md = self.order()
        fid = r.choice([0, 1, 2])
        for (g, m, i) in self.contents(self.db, K_(file_id=fid)):
            check(list(g) == [p for p in pts[i] if p[1] == fid] and m == md[i], 'get-trace %d of file %d' % (i, fid))
        for i in range(len(pts)):
            check(W.call('trace-size', self.db, i) == len(pts[i]), 'trace-size of trace %d' % i)
            ty = items(W.call('trace-types', self.db, i))
            check(sorted(ty) == sorted({v[1] for p in pts[i] for v in p[2]}), 'trace-types of trace %d is %s' % (i, ty))
        s = W.call('restrict-to-file', self.db, fid)
        for (g, m, i) in self.contents(s):
            check(list(g) == [p for p in pts[i] if p[1] == fid], 'trace %d restricted to file %d' % (i, fid))
            check(m == md[i], 'metadata of trace %d restricted to a file' % i)
        W.st['points'] = W.st.get('points', 0) + sum(map(len, pts))

    def query(self):
        W, r = self.W, self.r
        if not self.model:
            return
        pts, md = self.order()
        i = r.randrange(len(pts))
        nv = r.choice([0, 1, 1, 2])
        tn = sorted({v[1] for p in pts[i] for v in p[2]})
        vt = [r.sample(tn, r.randint(0, len(tn))) + (['nope'] if r.random() < 0.2 else []) for _ in range(nv)]
        pick = r.random() < 0.2
        fid = r.choice([None, None, 0, 1, 2])
        fl = r.choice([None, lambda f, c, *vs: c % 2 == 0, lambda f, c, *vs: not any(x[0] == 'x' for x in vs)])
        kw = (K_(pick=ml.T) if pick else []) + (K_(file_id=fid) if fid is not None else [])
        if fl:
            kw += K_(filter=lambda *a: ml.b(fl(*(list(a[:2]) + [seq(v) for v in a[2:]]))))
        if pick and fid is not None and not any(p[1] == fid for p in pts[i]):
            return
        res = W.call('query-trace', self.db, i, lst(S(x) for x in 'xyzw'[:nv]), lst(lst(s) for s in vt), *kw)
        what = 'query of %d variables%s%s%s' % (nv, ' in file %s' % fid if fid is not None else '', ' picked' if pick else '', ' filtered' if fl else '')
        if res is None:
            got, m = [], md[i]
        else:
            check(isinstance(res.car, Cons) and res.car.car is K['results'], '%s returns %s' % (what, show(res)[:100]))
            got, m = [point(p, what)[:3] for p in items(res.car.cdr)], canon(res.cdr)
        check(m == md[i], '%s carries metadata %s, expected %s' % (what, m, md[i]))
        per = []
        for p in pts[i]:
            if fid is not None and p[1] != fid:
                continue
            out = []
            for b in itertools.product(*[[k for k, v in enumerate(p[2]) if v[1] in s] for s in vt]):
                if len(set(b)) < len(b):
                    continue
                vs = tuple(p[2][k] for k in b)
                if fl is None or fl(p[1], p[0], *vs):
                    out.append((p[0], p[1], vs))
            per.append(out)
        W.st['queries_sexp'] = W.st.get('queries_sexp', 0) + 1
        gs = Binary.groups(Binary, []) if False else None
        key = Binary.key

        def groups(o):
            d = {}
            for x in o:
                d.setdefault(key(x), []).append(x)
            return d

        def matches(gs):
            return len(got) == len(gs) and {key(x) for x in got} == set(gs) and all(x in gs[key(x)] for x in got)
        if pick:
            check(any(matches(groups(o)) for o in per), '%s: the results are not those of one point' % what)
        else:
            gs = groups([x for o in per for x in o])
            check(matches(gs), '%s: %d results, expected %d: %s / %s' % (what, len(got), len(gs), [x for x in got if key(x) not in gs][:2], [gs[k][0] for k in gs if k not in {key(x) for x in got}][:2]))
        W.st['query_results'] = W.st.get('query_results', 0) + len(got)


# ------------------------------------------------------------------ cases
def c23(W, r, case):
    sig = []
    B = Binary(W, r)
    for _ in range(r.randint(1, 6)):
        B.add()
        if r.random() < 0.4:
            B.verify()
    B.verify()
    if r.random() < 0.6:
        db2 = B.store()
        B.verify(db2)
        if r.random() < 0.5:
            old, B.db = B.db, db2
            B.add()
            B.verify()
            n = len(B.model)
            check(W.call('n-traces', old) <= n, 'original database')
            B.db = db2
    f = r.choice([0, 1, 2])
    B.verify(W.call('restrict-to-file', B.db, f), f)
    t = Trace(r, r.choice([0, 2, 9]))
    with open(W.d + '/t', 'wb') as h:
        h.write(t.data())
    lim = r.choice([None, 0, 1, 3])
    got = [point(p, 'read-binary-trace') for p in items(W.call('read-binary-trace', W.d + '/t', *(K_(max_trace_points=lim) if lim is not None else []), *K_(timeout=r.choice([0, 5]))))]
    w = [expect(p) for p in t.pts][:lim or None]
    check(got == w, 'read-binary-trace: %d points, expected %d: %s / %s' % (len(got), len(w), str([x for x in got if x not in w][:1])[:300], str([x for x in w if x not in got][:1])[:300]))
    check(W.call('read-binary-trace', W.d + '/missing') is None, 'read-binary-trace of a missing file')
    X = Sexp(W, r)
    for _ in range(r.randint(1, 5)):
        X.add()
    X.verify()
    return repr([[expect(p) for p in m['pts']] for m in B.model])


def c26(W, r, case):
    B = Binary(W, r)
    for _ in range(r.randint(1, 3)):
        B.add()
    sig = []
    f = r.choice([0, 1, 2])
    for _ in range(8):
        sig.append(B.query())
    if r.random() < 0.5:
        R = W.call('restrict-to-file', B.db, f)
        for _ in range(3):
            sig.append(B.query(R, f))
    X = Sexp(W, r)
    for _ in range(2):
        X.add()
    for _ in range(4):
        X.query()
    return repr(sig)


def c27(W, r, case):
    """Every operation gives back what it took."""
    F, I = W.F, W.I
    B = Binary(W, r)
    held = {}

    def step(what, f):
        before = dict(F.held())
        f()
        now = {k: v for k, v in F.held().items() if k not in before}
        check(not now, '%s leaves %d foreign objects behind: %s' % (what, len(now), ', '.join(sorted({v[0] for v in now.values()}))))
    for _ in range(r.randint(1, 4)):
        step('adding a trace', B.add)
    for _ in range(6):
        step('a query', B.query)
    step('get-trace, trace-size and trace-types', B.verify)
    dbs = [B.db]
    box = []
    step('storing and restoring', lambda: box.append(B.store()))
    dbs.append(box[0])
    t = Trace(r, r.choice([0, 2, 9]))
    with open(W.d + '/t', 'wb') as h:
        h.write(t.data())
    step('read-binary-trace', lambda: W.call('read-binary-trace', W.d + '/t'))
    step('read-binary-trace of a missing file', lambda: W.call('read-binary-trace', W.d + '/missing'))
    R = W.call('restrict-to-file', B.db, 1)
    check(id(R) not in I.finalizers, 'a restricted view would release the database of its parent')
    # databases are released with their Lisp objects, once
    for db in dbs:
        o, fs = I.finalizers.get(id(db), (None, []))
        check(fs, 'a database is never released')
        check(len(fs) == 1, 'a database is released %d times' % len(fs))
        for f in fs:
            check(not lispffi.reachable(db, f), 'the finalizer of a database refers to it, so that it is never collected')
        p = db.slots[S('db-pointer')].a
        for f in fs:
            I.call(f, [])
        check(p not in F.live, 'the finalizer of a database does not release it')
    W.st['foreign_objects'] = W.st.get('foreign_objects', 0) + F.events
    return repr([[expect(p) for p in m['pts']] for m in B.model])


def main():
    a = sys.argv[1:]
    o = {'--seed': '1', '--from': '0', '--count': '1', '--scratch': '/tmp', '--budget': '0'}
    for i in range(1, len(a) - 1, 2):
        o[a[i]] = a[i + 1]
    mode = {'C23': c23, 'C26': c26, 'C27': c27}[a[0]]
    st, distinct, samples, ev = {}, set(), [], 0
    pf = open(o['--progress'], 'wb', 0) if '--progress' in o else None
    t0 = time.time()
    fail, unsup = None, None
    for k in range(int(o['--from']), int(o['--from']) + int(o['--count'])):
        if fail or unsup or float(o['--budget']) and time.time() - t0 > float(o['--budget']):
            break
        if pf:
            pf.seek(0)
            pf.write(struct.pack('<Q', k + 1))
        r = random.Random('%s/%s/%d' % (o['--seed'], a[0], k))
        try:
            W = World(os.environ.get('VERIF_REPO', '/repo'), os.environ['VERIF_SO'], o['--scratch'], st)
            W.fresh(r)
            x = mode(W, r, k)
            ev += 1
            distinct.add(int.from_bytes(hashlib.sha256(x.encode()).digest()[:8], 'little'))
            if len(samples) < 3:
                samples.append('history ' + x[:300])
        except (Failure, Misuse) as e:
            fail = (k, str(e))
        except Unsupported as e:
            unsup = str(e)
        except RecursionError:
            unsup = 'recursion limit'
        except Exception as e:
            if os.environ.get('LISP_DEBUG'):
                raise
            unsup = 'evaluator: %r' % e
        finally:
            for p, v in list(W.F.live.items()) if hasattr(W, 'F') else []:
                if v[0] == 'database':
                    W.F.lib.free_db(Ptr(p).a if False else lispffi.C.c_void_p(p))
    if unsup:
        st['evaluator_inconclusive'] = 1
        samples.append('INCONCLUSIVE: ' + unsup[:300])
        sys.stderr.write('NOTE inconclusive: %s\n' % unsup[:500])
    rc = 0
    if fail:
        print('FAIL ' + json.dumps(dict(case=fail[0], msg=fail[1])))
        rc = 3
    elif pf:
        pf.seek(0)
        pf.write(struct.pack('<Q', 0))
    if '--distinct' in o:
        with open(o['--distinct'], 'wb') as h:
            for x in distinct:
                h.write(struct.pack('<Q', x))
    print('STATS ' + json.dumps(dict(evaluations=ev, distinct=len(distinct), n=st, samples=samples)))
    return rc


rc = main()
sys.stdout.flush()
os._exit(rc)
