"""CFFI, cl-store and the other platform services which the repository's Lisp code uses, for the evaluator in minilisp.py,
with a monitor of foreign resources: everything acquired from the library or allocated for it is released exactly once,
by the right function."""
import ctypes as C, os, struct
import minilisp as ml
from minilisp import S, Cons, Unsupported, items, lst, one, show, lisp_error, special, fn, interp, Inst, Class, Env, SymMac, SPECIAL, BUILTIN, Single, strip, keys, seq, Char, Sym, T

libc = C.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes = C.c_void_p, [C.c_size_t]
libc.free.argtypes = [C.c_void_p]


class Misuse(Exception):
    """A foreign resource was used wrongly."""


class Ptr:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a or 0

    def __repr__(self):
        return '#<pointer %x>' % self.a


INT = {':uint8': 'B', ':int8': 'b', ':uint16': 'H', ':int16': 'h', ':uint32': 'I', ':int32': 'i', ':uint64': 'Q', ':int64': 'q', ':int': 'i', ':unsigned-int': 'I', ':uint': 'I', ':long': 'q', ':unsigned-long': 'Q',
       ':ulong': 'Q', ':size': 'Q', ':ssize': 'q', ':char': 'b', ':unsigned-char': 'B', ':uchar': 'B', ':short': 'h', ':unsigned-short': 'H', ':ushort': 'H', ':long-long': 'q', ':unsigned-long-long': 'Q', ':llong': 'q', ':ullong': 'Q'}
CT = {'B': C.c_uint8, 'b': C.c_int8, 'H': C.c_uint16, 'h': C.c_int16, 'I': C.c_uint32, 'i': C.c_int32, 'Q': C.c_uint64, 'q': C.c_int64}


class FT:
    """A foreign type: size, alignment, ctypes class, conversion."""
    def __init__(self, kind, size, align, ct, **kw):
        self.kind, self.size, self.align, self.ct = kind, size, align, ct
        self.__dict__.update(kw)


class FFI:
    def __init__(self, I, so, on_load=None):
        self.I, self.lib = I, C.CDLL(so)
        self.enums, self.structs, self.typedefs = {}, {}, {}
        self.live = {}          # address -> (kind, number)
        self.strings = {}       # foreign strings made for the library and not freed
        self.stack = []
        self.calls = {}
        self.decode_restart = None
        self.cstr_type = None
        self.events = 0
        I.ffi = self
        I.hooks['mem-ref'] = lambda I, v, p, t, off=0: self.put(self.type(t), p.a + off, v)
        I.hooks['mem-aref'] = lambda I, v, p, t, i=0: self.put(self.type(t), p.a + i * self.type(t).size, v)
        I.hooks['foreign-slot-value'] = lambda I, v, p, t, s: self.slot_put(p, t, s, v)

    # ---- types
    def type(self, t):
        if isinstance(t, Cons):
            l = items(t)
            h = l[0].name
            if h == ':pointer':
                return FT('pointer', 8, 8, C.c_void_p)
            if h == ':struct':
                s = self.structs.get(l[1])
                if s is None:
                    raise Unsupported('foreign structure %s' % show(l[1]))
                return s
            if h == ':array':
                e = self.type(l[1])
                return FT('array', e.size * l[2], e.align, None, elem=e, n=l[2])
            if h == ':boolean':
                return FT('bool', 4, 4, C.c_int32)
            if h == ':string':
                o = dict(zip([x.name for x in l[1::2]], l[2::2]))
                if set(o) - {':free-from-foreign', ':encoding', ':free-to-foreign'} or o.get(':encoding', S(':utf-8')) is not S(':utf-8') or o.get(':free-to-foreign', ml.T) is None:
                    raise Unsupported('foreign type %s' % show(t))
                return FT('string', 8, 8, C.c_void_p, free=o.get(':free-from-foreign') is not None)
            raise Unsupported('foreign type %s' % show(t))
        if not isinstance(t, Sym):
            raise Unsupported('foreign type %s' % show(t))
        n = t.name
        if n in INT:
            f = INT[n]
            z = struct.calcsize(f)
            return FT('int', z, z, CT[f], f=f)
        if n == ':pointer':
            return FT('pointer', 8, 8, C.c_void_p)
        if n == ':string':
            return FT('string', 8, 8, C.c_void_p)
        if n == ':float':
            return FT('float', 4, 4, C.c_float)
        if n == ':double':
            return FT('double', 8, 8, C.c_double)
        if n in (':boolean', ':bool'):
            return FT('bool', 4, 4, C.c_int32)
        if n == ':void':
            return FT('void', 0, 1, None)
        if t in self.enums:
            return FT('enum', 4, 4, C.c_int32, d=self.enums[t], name=n)
        if t in self.typedefs:
            return self.type(self.typedefs[t])
        if t in self.structs:
            return self.structs[t]
        raise Unsupported('foreign type %s' % n)

    def rd(self, a, n):
        if a < 4096:
            raise Misuse('reads address %x' % a)
        return C.string_at(a, n)

    def wr(self, a, data):
        if a < 4096:
            raise Misuse('writes address %x' % a)
        C.memmove(a, data, len(data))

    def cstring(self, a):
        if not a:
            return None
        try:
            return C.string_at(a).decode('utf-8')
        except UnicodeDecodeError:
            return self.decoding_error('invalid text in a foreign string')

    def decoding_error(self, msg):
        r = self.decode_restart
        if r is not None and any(r in x for x in self.I.restarts):
            BUILTIN[S('invoke-restart')](self.I, r)
        raise lisp_error('simple-error', msg)

    def get(self, t, a):
        k = t.kind
        if k == 'int':
            return struct.unpack(t.f, self.rd(a, t.size))[0]
        if k == 'pointer':
            return Ptr(struct.unpack('Q', self.rd(a, 8))[0])
        if k == 'string':
            return self.cstring(struct.unpack('Q', self.rd(a, 8))[0])
        if k == 'float':
            return Single(struct.unpack('f', self.rd(a, 4))[0])
        if k == 'double':
            return struct.unpack('d', self.rd(a, 8))[0]
        if k == 'bool':
            return ml.b(struct.unpack('i', self.rd(a, 4))[0])
        if k == 'enum':
            return self.keyword(t, struct.unpack('i', self.rd(a, 4))[0])
        if k == 'struct':
            return self.struct_get(t, a)
        if k == 'array':
            return [self.get(t.elem, a + i * t.elem.size) for i in range(t.n)]
        raise Unsupported('reading foreign type ' + k)

    def keyword(self, t, v):
        for kw, x in t.d.items():
            if x == v:
                return kw
        raise lisp_error('simple-error', '%d is not in the enumeration %s' % (v, t.name))

    def struct_get(self, t, a):
        I = self.I
        if t.cls is not None:
            for g in ('expand-from-foreign', 'translate-from-foreign'):
                G = I.g.f.get(S(g))
                if G is None or not any(len(m.specs) == 2 and m.specs[1] is t.cls.cls for m in G.methods):
                    continue
                if g == 'translate-from-foreign':
                    return one(G(Ptr(a), t.cls))
                var = Sym('%foreign')
                e = Env(I.g)
                e.v[var] = Ptr(a)
                form = t.__dict__.get('form')
                if form is None or form[0] is not G or form[1] != len(G.methods):
                    form = t.form = (G, len(G.methods), var, one(G(var, t.cls)))
                e.v[form[2]] = Ptr(a)
                return I.ev1(form[3], e)
        out = []
        for name, (ft, off) in t.slots.items():
            out += [name, self.get(ft, a + off)]
        return lst(out)

    def slot(self, t, name):
        x = t.slots.get(name)
        if x is None:
            raise lisp_error('simple-error', 'no slot %s in %s' % (show(name), t.name))
        return x

    def slot_put(self, p, t, s, v):
        ft, off = self.slot(self.type(t), s)
        self.put(ft, p.a + off, v)

    def slot_get(self, p, t, s):
        ft, off = self.slot(self.type(t), s)
        if ft.kind == 'struct':
            return Ptr(p.a + off)
        return self.get(ft, p.a + off)

    def put(self, t, a, v):
        k = t.kind
        if k == 'int':
            if not isinstance(v, int):
                raise lisp_error('type-error', '%s stored as a foreign integer' % show(v)[:80])
            try:
                self.wr(a, struct.pack(t.f, v))
            except struct.error:
                raise lisp_error('type-error', '%d does not fit a foreign integer of %d bytes' % (v, t.size))
        elif k == 'pointer':
            if not isinstance(v, Ptr):
                raise lisp_error('type-error', '%s stored as a foreign pointer' % show(v)[:80])
            self.wr(a, struct.pack('Q', v.a))
        elif k == 'string':
            if isinstance(v, Ptr):
                self.wr(a, struct.pack('Q', v.a))
            else:
                self.wr(a, struct.pack('Q', self.new_string(v)))
        elif k == 'float' or k == 'double':
            if not isinstance(v, float) or isinstance(v, Single) != (k == 'float'):
                raise lisp_error('type-error', '%s stored as a foreign %s' % (show(v)[:80], k))
            self.wr(a, struct.pack('f' if k == 'float' else 'd', v))
        elif k == 'enum':
            self.wr(a, struct.pack('i', self.enum_value(t, v)))
        elif k == 'bool':
            self.wr(a, struct.pack('i', 0 if v is None else 1))
        elif k == 'struct':
            l = items(v)
            if len(l) % 2:
                raise lisp_error('simple-error', 'property list of odd length for %s' % t.name)
            seen = set()
            for i in range(0, len(l), 2):
                if l[i] in seen:
                    continue
                seen.add(l[i])
                ft, off = self.slot(t, l[i])
                self.put(ft, a + off, l[i + 1])
        else:
            raise Unsupported('writing foreign type ' + k)

    def enum_value(self, t, v):
        if isinstance(v, int):
            return v
        if v not in t.d:
            raise lisp_error('simple-error', '%s is not in the enumeration %s' % (show(v), t.name))
        return t.d[v]

    # ---- memory
    def alloc(self, n, kind='allocated'):
        p = libc.malloc(max(1, n))
        C.memset(p, 0xAA, max(1, n))
        self.live[p] = (kind, n)
        self.events += 1
        return p

    def new_string(self, s):
        if not isinstance(s, str):
            raise lisp_error('type-error', '%s passed as a foreign string' % show(s)[:60])
        d = s.encode('utf-8') + b'\0'
        p = self.alloc(len(d), 'foreign string')
        self.wr(p, d)
        return p

    def release(self, p, kinds, by):
        self.events += 1
        x = self.live.get(p)
        if x is None:
            raise Misuse('%s of %x, which is not held (released before, or never obtained)' % (by, p))
        if x[0] not in kinds:
            raise Misuse('%s of something obtained as %s' % (by, x[0]))
        del self.live[p]
        return x

    def free(self, p):
        if not isinstance(p, Ptr):
            raise lisp_error('type-error', '%s freed' % show(p)[:60])
        if p.a:
            self.release(p.a, ('allocated', 'foreign string', 'names', 'types', 'text'), 'foreign-free')
            libc.free(p.a)

    # ---- foreign functions
    def define(self, cname, ret, params):
        try:
            f = getattr(self.lib, cname)
        except AttributeError:
            raise Unsupported('no foreign function ' + cname)
        fn_ = C.CFUNCTYPE
        rt = self.type(ret)
        pts = [(n, t) for n, t in params]

        def call(*args):
            ts = [self.type(t) for _, t in pts]
            if len(args) != len(ts):
                raise lisp_error('program-error', '%s called with %d arguments' % (cname, len(args)))
            f.restype, f.argtypes = rt.ct, [t.ct for t in ts]
            conv, tmp = [], []
            for t, v, (n, _) in zip(ts, args, pts):
                if t.kind == 'string' and not isinstance(v, Ptr):
                    if v is None:
                        raise lisp_error('type-error', 'NIL passed as a string to %s' % cname)
                    if not isinstance(v, str):
                        raise lisp_error('type-error', '%s passed as a string to %s' % (show(v)[:60], cname))
                    bf = C.create_string_buffer(v.encode('utf-8'))
                    tmp.append(bf)
                    conv.append(C.addressof(bf))
                elif t.kind in ('pointer', 'string'):
                    if not isinstance(v, Ptr):
                        raise lisp_error('type-error', '%s passed as the pointer %s to %s' % (show(v)[:60], show(n), cname))
                    conv.append(v.a)
                elif t.kind == 'int':
                    if not isinstance(v, int):
                        raise lisp_error('type-error', '%s passed as the integer %s to %s' % (show(v)[:60], show(n), cname))
                    try:
                        struct.pack(t.f, v)
                    except struct.error:
                        raise lisp_error('type-error', '%d passed as %s to %s' % (v, show(n), cname))
                    conv.append(v)
                elif t.kind == 'enum':
                    conv.append(self.enum_value(t, v))
                elif t.kind in ('float', 'double'):
                    conv.append(float(v))
                else:
                    raise Unsupported('argument of kind ' + t.kind)
            self.calls[cname] = self.calls.get(cname, 0) + 1
            self.before(cname, conv)
            r = f(*conv)
            return self.after(cname, conv, r, rt)
        return call

    def walk_predicate(self, p):
        """Blocks of a predicate built for the library."""
        t = self.structs.get(S('c-predicate'))
        if t is None:
            raise Unsupported('no c-predicate structure')
        out = [p]

        def kids(a):
            n = self.get(*[self.slot(t, S('n-children'))[0], a + self.slot(t, S('n-children'))[1]])
            c = self.get(self.slot(t, S('children'))[0], a + self.slot(t, S('children'))[1]).a
            if n and not c:
                raise Misuse('a predicate with %d children has none' % n)
            if c:
                out.append(c)
                for i in range(n):
                    kids(c + i * t.size)
        kids(p)
        return out

    def before(self, name, a):
        db = {'add_trace': 0, 'add_trace_points': 0, 'get_trace': 0, 'n_traces': 0, 'serialize_trace_db': 0, 'query_trace': 0}
        if name in db:
            x = self.live.get(a[0])
            if x is None or x[0] != 'database':
                raise Misuse('%s on something that is no open database' % name)
            if name == 'get_trace' and a[1] >= self.count(a[0]):
                raise Misuse('get_trace with index %d' % a[1])
            if name == 'query_trace' and a[1] >= self.count(a[0]):
                raise Misuse('query_trace with index %d' % a[1])
        elif name == 'free_db':
            self.release(a[0], ('database',), 'free_db')
            for k in [k for k, v in self.live.items() if v[0] == 'trace of database' and v[1] == a[0]]:
                del self.live[k]
        elif name == 'free_trace':
            self.release(a[0], ('trace',), 'free_trace')
        elif name == 'free_trace_points':
            if a[0]:
                x = self.release(a[0], ('points',), 'free_trace_points')
                if x[1] != a[1]:
                    raise Misuse('free_trace_points with %d points of %d' % (a[1], x[1]))
        elif name == 'free_c_predicate':
            if a[0]:
                for p in self.walk_predicate(a[0]):
                    self.release(p, ('allocated',), 'free_c_predicate')
        elif name in ('trace_size', 'get_points', 'n_types', 'get_types', 'n_names', 'get_names'):
            x = self.live.get(a[0])
            if x is None or x[0] not in ('trace', 'trace of database'):
                raise Misuse('%s on something that is no open trace' % name)

    def count(self, db):
        f = self.lib.n_traces
        f.restype, f.argtypes = C.c_uint32, [C.c_void_p]
        return f(db)

    def after(self, name, a, r, rt):
        if name in ('create_db', 'deserialize_trace_db'):
            if r:
                self.live[r] = ('database', 0)
        elif name == 'read_trace':
            if r:
                self.live[r] = ('trace', 0)
        elif name == 'get_trace':
            self.live[r] = ('trace of database', a[0])
        elif name in ('get_names', 'get_types'):
            if r:
                self.live[r] = (name[4:], 0)
        elif name == 'get_points':
            f = self.lib.trace_size
            f.restype, f.argtypes = C.c_uint64, [C.c_void_p]
            if r:
                self.live[r] = ('points', f(a[0]))
        elif name == 'query_trace':
            p = struct.unpack('Q', self.rd(a[11], 8))[0]
            n = struct.unpack('Q', self.rd(a[12], 8))[0]
            if p:
                self.live[p] = ('points', n)
        elif name == 'serialize_trace_db':
            if r:
                self.live[r] = ('text', 0)
        k = rt.kind
        if k == 'void':
            return None
        if k == 'pointer':
            return Ptr(r)
        if k == 'string':
            v = self.cstring(r)
            if rt.__dict__.get('free'):
                self.free(Ptr(r))
            return v
        if k == 'enum':
            return self.keyword(rt, r)
        return r

    def held(self):
        """Resources still held, apart from databases."""
        return {k: v for k, v in self.live.items() if v[0] not in ('database', 'trace of database')}


def ffi(f):
    """Builtin taking the foreign interface first."""
    def g(I, *a):
        return f(I.ffi, *a)
    g.interp = True
    return g


# ------------------------------------------------------------------ declarations
@special('defctype')
def _(I, f, env):
    l = items(f.cdr)
    I.ffi.typedefs[l[0]] = l[1]


@special('defcenum')
def _(I, f, env):
    l = items(f.cdr)
    name = l[0].car if isinstance(l[0], Cons) else l[0]
    v, d = 0, {}
    for x in l[1:]:
        if isinstance(x, str):
            continue
        if isinstance(x, Cons):
            x, v = x.car, I.ev1(x.cdr.car, env)
        d[x] = v
        v += 1
    I.ffi.enums[name] = d
    return name


@special('defcstruct')
def _(I, f, env):
    F = I.ffi
    l = items(f.cdr)
    cls = None
    name = l[0]
    if isinstance(name, Cons):
        o = items(name)
        name = o[0]
        for i in range(1, len(o), 2):
            if o[i].name == ':class':
                c = Class(o[i + 1].name, [I.root], [])
                I.classes[o[i + 1]] = c
                cls = Inst(c)
            else:
                raise Unsupported('structure option ' + o[i].name)
    t = FT('struct', 0, 1, None, slots={}, name=name.name, cls=cls)
    F.structs[name] = t
    off = 0
    for x in l[1:]:
        if isinstance(x, str):
            continue
        x = items(x)
        if len(x) != 2:
            raise Unsupported('slot options')
        ft = F.type(x[1])
        off = (off + ft.align - 1) // ft.align * ft.align
        t.slots[x[0]] = (ft, off)
        off += ft.size
        t.align = max(t.align, ft.align)
    t.size = (off + t.align - 1) // t.align * t.align
    return name


@special('defcfun')
def _(I, f, env):
    l = items(f.cdr)
    nm = l[0]
    if isinstance(nm, Cons):
        o = items(nm)
        cn = next(x for x in o if isinstance(x, str))
        ln = next((x for x in o if isinstance(x, Sym)), None)
        if ln is None:
            raise Unsupported('foreign function name')
    elif isinstance(nm, str):
        cn, ln = nm, S(nm.replace('_', '-'))
    else:
        cn, ln = nm.name.replace('-', '_'), nm
    rest = [x for x in l[2:] if not isinstance(x, str)]
    I.g.f[ln] = I.ffi.define(cn, l[1], [(x.car, x.cdr.car) for x in rest])
    return ln


@special('with-foreign-object', 'with-foreign-objects')
def _(I, f, env):
    bs = [f.cdr.car] if f.car.name == 'with-foreign-object' else items(f.cdr.car)
    e = Env(env)
    mem = []
    for x in bs:
        x = items(x)
        t = I.ffi.type(I.ev1(x[1], env))
        n = I.ev1(x[2], env) if len(x) > 2 else 1
        p = libc.malloc(max(1, t.size * n))
        C.memset(p, 0xAA, max(1, t.size * n))
        mem.append(p)
        e.v[x[0]] = Ptr(p)
    try:
        return I.progn(strip(items(f.cdr.cdr)), e)
    finally:
        for p in mem:
            libc.free(p)


@special('with-foreign-string')
def _(I, f, env):
    x = items(f.cdr.car)
    if isinstance(x[0], Cons):
        raise Unsupported('with-foreign-string')
    e = Env(env)
    d = C.create_string_buffer(I.ev1(x[1], env).encode('utf-8'))
    e.v[x[0]] = Ptr(C.addressof(d))
    return I.progn(strip(items(f.cdr.cdr)), e)


@special('with-foreign-slots')
def _(I, f, env):
    sl, p, t = items(f.cdr.car)
    ptr = I.ev1(p, env)
    e = Env(env)
    F = I.ffi
    for s in items(sl):
        if isinstance(s, Cons):
            raise Unsupported('slot options')
        F.slot(F.type(t), s)
        e.v[s] = SymMac(lambda s=s: F.slot_get(ptr, t, s), lambda v, s=s: F.slot_put(ptr, t, s, v))
    return I.progn(strip(items(f.cdr.cdr)), e)


@fn('mem-ref')
@ffi
def _(F, p, t, off=0):
    return F.get(F.type(t), p.a + off)


@fn('mem-aref')
@ffi
def _(F, p, t, i=0):
    y = F.type(t)
    return F.get(y, p.a + i * y.size)


@fn('mem-aptr')
@ffi
def _(F, p, t, i=0):
    return Ptr(p.a + i * F.type(t).size)


fn('foreign-slot-value')(ffi(lambda F, p, t, s: F.slot_get(p, t, s)))
fn('foreign-slot-pointer')(ffi(lambda F, p, t, s: Ptr(p.a + F.slot(F.type(t), s)[1])))
fn('foreign-type-size')(ffi(lambda F, t: F.type(t).size))
fn('foreign-type-alignment')(ffi(lambda F, t: F.type(t).align))
fn('foreign-enum-value')(ffi(lambda F, t, k, *r: F.enum_value(F.type(t), k)))
fn('foreign-enum-keyword')(ffi(lambda F, t, v, *r: F.keyword(F.type(t), v)))
fn('inc-pointer')(lambda p, n: Ptr(p.a + n))
fn('pointer-address')(lambda p: p.a)
fn('make-pointer')(lambda a: Ptr(a))
fn('pointer-eq')(lambda p, q: ml.b(p.a == q.a))
fn('pointerp')(lambda p: ml.b(isinstance(p, Ptr)))
fn('null-pointer')(lambda: Ptr(0))


@fn('null-pointer-p')
def _(p):
    if not isinstance(p, Ptr):
        raise lisp_error('type-error', '%s is no pointer' % show(p)[:60])
    return ml.b(p.a == 0)


@fn('foreign-alloc')
@ffi
def _(F, t, *k):
    kw = keys(list(k), 'count', 'initial-element', 'initial-contents', 'null-terminated-p')
    if kw.get('null-terminated-p') is not None:
        raise Unsupported('null-terminated-p')
    y = F.type(t)
    n = kw.get('count')
    c = list(seq(kw['initial-contents'])) if kw.get('initial-contents') is not None else None
    if n is None:
        n = len(c) if c is not None else 1
    p = F.alloc(y.size * n)
    if c is not None:
        for i, v in enumerate(c[:n]):
            F.put(y, p + i * y.size, v)
    elif 'initial-element' in kw:
        for i in range(n):
            F.put(y, p + i * y.size, kw['initial-element'])
    return Ptr(p)


fn('foreign-free', 'foreign-string-free')(ffi(lambda F, p: F.free(p)))
fn('foreign-string-alloc')(ffi(lambda F, s: Ptr(F.new_string(s))))


@fn('foreign-string-to-lisp')
@ffi
def _(F, p, *k):
    kw = keys(list(k), 'count', 'offset', 'encoding')
    if kw.get('encoding') is not None:
        raise Unsupported('encoding')
    if p.a == 0:
        return None
    a = p.a + (kw.get('offset') or 0)
    if kw.get('count') is None:
        return F.cstring(a)
    try:
        return C.string_at(a, kw['count']).decode('utf-8')
    except UnicodeDecodeError:
        return F.decoding_error('invalid text in a foreign string')


@fn('lisp-array-to-foreign')
@ffi
def _(F, arr, p, t):
    y = F.type(t)
    if y.kind != 'array':
        raise Unsupported('lisp-array-to-foreign of %s' % show(t))
    l = list(seq(arr))
    for i in range(y.n):
        F.put(y.elem, p.a + i * y.elem.size, l[i])
    return p


@fn('foreign-array-to-lisp')
@ffi
def _(F, p, t, *k):
    return F.get(F.type(t), p.a)


@fn('foreign-array-alloc')
@ffi
def _(F, arr, t):
    y = F.type(t)
    p = Ptr(F.alloc(y.size))
    for i, v in enumerate(seq(arr)):
        F.put(y.elem, p.a + i * y.elem.size, v)
    return p


# ------------------------------------------------------------------ garbage collection
@fn('finalize')
@interp
def _(I, o, f, *k):
    I.finalizers.setdefault(id(o), (o, []))[1].append(f)
    return o


@fn('cancel-finalization')
@interp
def _(I, o):
    I.finalizers.pop(id(o), None)


def mentioned(x, out):
    if isinstance(x, Sym):
        out.add(x)
    elif isinstance(x, Cons):
        while isinstance(x, Cons):
            mentioned(x.car, out)
            x = x.cdr
        mentioned(x, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            mentioned(y, out)


def reachable(o, f, seen=None):
    """Whether the closure's environment reaches the object (which then is never collected)."""
    seen = set() if seen is None else seen
    todo = [f]
    while todo:
        x = todo.pop()
        if x is o:
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, ml.Closure):   # only the variables its text mentions are kept
            names = set()
            mentioned(x.body, names)
            mentioned(x.ll, names)
            for n in names:
                e = x.env
                while e is not None and e.up is not None:
                    hit = [d[n] for d in (e.v, e.f) if n in d]
                    todo += hit
                    if n in e.v and n in e.f:
                        break
                    e = e.up
        elif isinstance(x, Env):
            if x.up is not None:        # the global environment reaches everything by name only
                todo += list(x.v.values()) + list(x.f.values()) + [x.up]
        elif isinstance(x, Cons):
            todo += [x.car, x.cdr]
        elif isinstance(x, list):
            todo += x
        elif isinstance(x, Inst):
            todo += list(x.slots.values())
        elif callable(x) and getattr(x, '__closure__', None):
            todo += [c.cell_contents for c in x.__closure__ if not isinstance(c.cell_contents, ml.Interp)]
        elif isinstance(x, SymMac):
            todo += [x.get, x.put]
    return False


# ------------------------------------------------------------------ cl-store
STORE, RESTORE = S('%store'), S('%restore')


class Bag:
    """A stream of stored objects."""
    def __init__(self):
        self.q = []


@special('defstore-cl-store')
def _(I, f, env):
    a = items(f.cdr.car)
    I.stores[a[1]] = ml.Closure(I, 'store', lst([a[0], a[2]]), items(f.cdr.cdr), env)


@special('defrestore-cl-store')
def _(I, f, env):
    a = items(f.cdr.car)
    I.restores[a[0]] = ml.Closure(I, 'restore', lst([a[1]]), items(f.cdr.cdr), env)


fn('register-code')(lambda n, name, *a: Cons(S('%code'), name))


@fn('output-type-code')
@interp
def _(I, code, s):
    s.q.append(('code', code.cdr))


def deep(x):
    if isinstance(x, Cons):
        return lst([deep(y) for y in items_dotted(x)[0]], deep(items_dotted(x)[1]))
    if isinstance(x, list):
        return [deep(y) for y in x]
    if x is None or isinstance(x, (str, int, float, Sym, Char)) or type(x).__name__ == 'Fraction':
        return x
    raise Unsupported('storing %s' % show(x)[:60])


def items_dotted(x):
    out = []
    while isinstance(x, Cons):
        out.append(x.car)
        x = x.cdr
    return out, x


@fn('store-object', 'store')
@interp
def store_object(I, o, s):
    if isinstance(o, Inst):
        for c in o.cls.mro():
            g = I.stores.get(S(c.name))
            if g is not None:
                g(o, s)
                return o
        d = Inst(o.cls)
        d.slots = {k: deep(v) for k, v in o.slots.items()}
        s.q.append(('inst', d))
        return o
    s.q.append(('obj', deep(o)))
    return o


@fn('restore-object', 'restore')
@interp
def restore_object(I, s):
    if not s.q:
        raise lisp_error('end-of-file', 'restoring')
    k, v = s.q.pop(0)
    if k == 'code':
        g = I.restores.get(v)
        if g is None:
            raise lisp_error('simple-error', 'nothing restores %s' % show(v))
        return one(g(s))
    return v


# ------------------------------------------------------------------ system
class Stream:
    def __init__(self, text):
        self.r, self.open = ml.Reader(text, 0, False), True


class Thread:
    def __init__(self, value, alive):
        self.value, self.alive, self.dead = value, alive, False


class Clock:
    now = 0


@fn('open')
@interp
def _(I, name, *k):
    keys(list(k), 'direction', 'sharing', 'external-format', 'element-type', 'if-does-not-exist', 'if-exists')
    try:
        with open(name, encoding='utf-8') as f:
            s = Stream(f.read())
    except OSError:
        raise lisp_error('file-error', 'cannot open %s' % name)
    I.streams.append(s)
    return s


@fn('close')
def _(s, *k):
    s.open = False
    return T


@fn('read')
@interp
def _(I, s, eof_error=T, eof_value=None, rec=None):
    if not s.open:
        raise lisp_error('stream-error', 'reading a closed stream')
    s.r.ws()
    if s.r.i >= len(s.r.s):
        if eof_error is not None:
            raise lisp_error('end-of-file', 'reading')
        return eof_value
    try:
        return s.r.read()
    except ml.EOF:
        err = lisp_error('end-of-file', 'inside an object')
    except ml.ReadError as e:
        err = lisp_error('reader-error', str(e))
    r = I.ffi.decode_restart_read
    if r is not None and any(r in x for x in I.restarts):
        BUILTIN[S('invoke-restart')](I, r)
    raise err


@fn('make-thread')
@interp
def _(I, f, *k):
    return Thread(I.fc(f), I.thread_delay)


@fn('thread-alive-p')
def _(t):
    if t.dead or t.alive <= 0:
        return None
    return T


@fn('join-thread')
@interp
def _(I, t, *k):
    if t.dead:
        raise lisp_error('join-thread-error', 'thread was ended')
    return t.value


@fn('destroy-thread')
def _(t):
    t.dead = True


@fn('sleep')
@interp
def _(I, n):
    I.clock += n
    I.thread_delay_left = 0
    for t in I.threads:
        t.alive -= n


fn('get-internal-real-time', 'get-internal-run-time')(interp(lambda I: int(I.clock * 1000000)))
fn('probe-file')(lambda p: p)
fn('make-pathname')(lambda *k: 'path')
fn('merge-pathnames-as-file', 'merge-pathnames')(lambda *a: 'path')
fn('run-program')(lambda *a: None)
fn('load-foreign-library')(lambda *a: T)


@fn('make-thread')
@interp
def _mk(I, f, *k):
    t = Thread(I.fc(f), I.thread_delay)
    I.threads.append(t)
    return t


def interpreter(repo, so, files=('trace-db.lisp', 'sexp-trace-db.lisp', 'binary-trace-db.lisp')):
    """The repository's Lisp code, loaded."""
    I = ml.Interp()
    I.stores, I.restores, I.streams, I.threads, I.clock, I.thread_delay = {}, {}, [], [], 0.0, 0
    F = FFI(I, so)
    F.decode_restart_read = None
    g = I.g.v
    g[S('+trace-db-dir+')] = lst(['dir'])
    g[S('*foreign-library-directories*')] = None
    g[S('internal-time-units-per-second')] = 1000000
    g[S('*standard-output*')] = None
    for f in files:
        I.load(open(os.path.join(repo, f), encoding='utf-8').read())
    return I
