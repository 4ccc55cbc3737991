"""A small Common Lisp evaluator: enough of the language, of the utility libraries (alexandria, serapeum, iterate,
curry-compose-reader-macros) and of CFFI's semantics to run the repository's own Lisp database code in this sandbox, which
has no Lisp.  Anything outside it raises Unsupported, which is never taken for a violation."""
import functools, math, operator, random as _random, re
from fractions import Fraction


class Unsupported(BaseException):
    """The evaluator, not the program, is at fault."""


# ------------------------------------------------------------------ data
class Sym:
    __slots__ = ('name',)
    table = {}

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def S(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym.table[name] = Sym(name)
    return s


class Cons:
    __slots__ = ('car', 'cdr')

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr

    def __repr__(self):
        return show(self)


class Char:
    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return '#\\' + self.c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(self.c)


class Single(float):
    pass


class MV:
    def __init__(self, v):
        self.v = v


class Class:
    def __init__(self, name, supers, slots):
        self.name, self.supers, self.slots = name, supers, slots

    def mro(self):
        out = []
        def go(c):
            if c not in out:
                out.append(c)
            for s in c.supers:
                go(s)
        go(self)
        # a class comes before its superclasses
        res = []
        for c in out:
            if c not in res:
                res.append(c)
        return res

    def __repr__(self):
        return '#<class %s>' % self.name


class Inst:
    def __init__(self, cls):
        self.cls, self.slots = cls, {}

    def __repr__(self):
        return '#<%s>' % self.cls.name


class Cond(Exception):
    """A signalled Lisp condition."""
    def __init__(self, obj, msg):
        Exception.__init__(self, msg)
        self.obj, self.msg = obj, msg


class Return(Exception):
    def __init__(self, tag, value):
        self.tag, self.value = tag, value


class Finish(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class NextIter(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


T = S('t')
NIL = None
QUOTE, FUNCTION, LAMBDA = S('quote'), S('function'), S('lambda')
QUASI, UNQ, UNQS = S('%quasi'), S('%unquote'), S('%splice')
COMPOSE, CURRY = S('%compose'), S('%curry')


def b(x):
    return T if x else None


def one(x):
    return x if not isinstance(x, MV) else (x.v[0] if x.v else None)


def lst(it, tail=None):
    r = tail
    for x in reversed(list(it)):
        r = Cons(x, r)
    return r


def items(l):
    """Elements of a proper list."""
    out = []
    while l is not None:
        if not isinstance(l, Cons):
            raise lisp_error('type-error', 'not a proper list: %s' % show(l))
        out.append(l.car)
        l = l.cdr
    return out


def seq(s):
    """Elements of any sequence."""
    if s is None or isinstance(s, Cons):
        return items(s)
    if isinstance(s, list):
        return s
    if isinstance(s, str):
        return [Char(c) for c in s]
    raise lisp_error('type-error', 'not a sequence: %s' % show(s))


def like(s, out):
    if s is None or isinstance(s, Cons):
        return lst(out)
    if isinstance(s, list):
        return list(out)
    if isinstance(s, str):
        return ''.join(c.c for c in out)
    raise lisp_error('type-error', 'not a sequence')


def show(x, depth=0):
    if depth > 12:
        return '...'
    if x is None:
        return 'NIL'
    if isinstance(x, Cons):
        out = []
        while isinstance(x, Cons) and len(out) < 60:
            out.append(show(x.car, depth + 1))
            x = x.cdr
        if isinstance(x, Cons):
            out.append('...')
        elif x is not None:
            out += ['.', show(x, depth + 1)]
        return '(' + ' '.join(out) + ')'
    if isinstance(x, list):
        return '#(' + ' '.join(show(y, depth + 1) for y in x[:60]) + ')'
    if isinstance(x, str):
        return '"' + x + '"'
    return repr(x) if isinstance(x, (Sym, Char, Inst, Class)) else str(x)


def lisp_error(kind, msg, **slots):
    return Cond((kind, slots), '%s: %s' % (kind, msg))


ERRS = {'condition': None, 'serious-condition': 'condition', 'error': 'serious-condition', 'warning': 'condition', 'type-error': 'error', 'simple-error': 'error',
        'arithmetic-error': 'error', 'division-by-zero': 'arithmetic-error', 'end-of-file': 'stream-error', 'stream-error': 'error', 'file-error': 'error',
        'reader-error': 'parse-error', 'parse-error': 'error', 'control-error': 'error', 'program-error': 'error', 'unbound-variable': 'cell-error',
        'undefined-function': 'cell-error', 'cell-error': 'error', 'simple-condition': 'condition', 'join-thread-error': 'error', 'index-error': 'error'}


# ------------------------------------------------------------------ reader
FEATURES = {'sbcl', 'unix', 'linux', 'x86-64', '64-bit', 'ansi-cl', 'common-lisp', 'sb-thread', 'thread-support'}
TERM = set('()[]{}"\';`,')


class ReadError(Exception):
    pass


class EOF(ReadError):
    pass


class Reader:
    def __init__(self, text, pos=0, curry=True):
        self.s, self.i, self.curry = text, pos, curry

    def ws(self):
        s, n = self.s, len(self.s)
        while self.i < n:
            c = s[self.i]
            if c.isspace():
                self.i += 1
            elif c == ';':
                while self.i < n and s[self.i] != '\n':
                    self.i += 1
            elif s.startswith('#|', self.i):
                d = 1
                self.i += 2
                while d and self.i < n:
                    if s.startswith('#|', self.i):
                        d += 1
                        self.i += 2
                    elif s.startswith('|#', self.i):
                        d -= 1
                        self.i += 2
                    else:
                        self.i += 1
            else:
                return
        return

    SKIP = object()

    def read(self):
        while True:
            x = self.read1()
            if x is not Reader.SKIP:
                return x

    def delimited(self, close):
        out, tail = [], None
        while True:
            self.ws()
            if self.i >= len(self.s):
                raise EOF('end of text in list')
            c = self.s[self.i]
            if c == close:
                self.i += 1
                return out, tail
            if c in ')]}':
                raise ReadError('unexpected ' + c)
            if c == '.' and self.i + 1 < len(self.s) and (self.s[self.i + 1].isspace() or self.s[self.i + 1] in '()'):
                self.i += 1
                tail = self.read()
                continue
            x = self.read1()
            if x is not Reader.SKIP:
                out.append(x)

    def feature(self, f):
        if isinstance(f, Sym):
            return f.name.lstrip(':') in FEATURES
        l = items(f)
        o = l[0].name.lstrip(':')
        if o == 'and':
            return all(self.feature(x) for x in l[1:])
        if o == 'or':
            return any(self.feature(x) for x in l[1:])
        if o == 'not':
            return not self.feature(l[1])
        raise ReadError('feature expression')

    def read1(self):
        self.ws()
        s = self.s
        if self.i >= len(s):
            raise EOF('end of text')
        c = s[self.i]
        if c == '(':
            self.i += 1
            out, tail = self.delimited(')')
            return lst(out, tail)
        if c == '[' and self.curry:
            self.i += 1
            return Cons(COMPOSE, lst(self.delimited(']')[0]))
        if c == '{' and self.curry:
            self.i += 1
            return Cons(CURRY, lst(self.delimited('}')[0]))
        if c in ')]}':
            raise ReadError('unexpected ' + c)
        if c == '"':
            out = []
            self.i += 1
            while True:
                if self.i >= len(s):
                    raise EOF('end of text in string')
                if s[self.i] == '"':
                    break
                if s[self.i] == '\\':
                    self.i += 1
                out.append(s[self.i])
                self.i += 1
            self.i += 1
            return ''.join(out)
        if c == "'":
            self.i += 1
            return lst([QUOTE, self.read()])
        if c == '`':
            self.i += 1
            return lst([QUASI, self.read()])
        if c == ',':
            self.i += 1
            if s[self.i] in '@.':
                self.i += 1
                return lst([UNQS, self.read()])
            return lst([UNQ, self.read()])
        if c == '#':
            d = s[self.i + 1] if self.i + 1 < len(s) else ''
            if d == "'":
                self.i += 2
                return lst([FUNCTION, self.read()])
            if d == '\\':
                m = re.compile(r'[A-Za-z][A-Za-z0-9_-]+|.', re.S).match(s, self.i + 2)
                t = m.group()
                self.i = m.end()
                return Char(t if len(t) == 1 else {'newline': '\n', 'space': ' ', 'tab': '\t', 'nul': '\0', 'null': '\0', 'return': '\r'}.get(t.lower(), t[0]))
            if d in '+-':
                self.i += 2
                f = self.feature(self.read())
                x = self.read()
                return x if f == (d == '+') else Reader.SKIP
            if d == '(':
                self.i += 2
                return [x for x in self.delimited(')')[0]]
            if d == ':':
                self.i += 2
                return self.read()
            if d in 'pP':
                self.i += 2
                return self.read()
            m = re.compile(r'#([xXbBoO])([-+]?[0-9a-fA-F]+)').match(s, self.i)
            if m:
                self.i = m.end()
                return int(m.group(2), {'x': 16, 'b': 2, 'o': 8}[m.group(1).lower()])
            raise ReadError('reader macro #%s' % d)
        if c == '|':
            j = s.index('|', self.i + 1)
            t = s[self.i + 1:j]
            self.i = j + 1
            return S(t)
        j = self.i
        while j < len(s) and not s[j].isspace() and s[j] not in TERM:
            if s[j] == '\\':
                j += 1
            j += 1
        t = s[self.i:j]
        self.i = j
        return atom(t)


def atom(t):
    if re.fullmatch(r'[-+]?\d+\.?', t):
        return int(t.rstrip('.'))
    if re.fullmatch(r'[-+]?\d+/\d+', t):
        f = Fraction(t)
        return int(f) if f.denominator == 1 else f
    m = re.fullmatch(r'([-+]?(?:\d+\.?\d*|\.\d+))(?:([edfslEDFSL])([-+]?\d+))?', t)
    if m and (m.group(2) or '.' in t):
        v = float(m.group(1) + 'e' + (m.group(3) or '0'))
        return v if (m.group(2) or '').lower() in ('d', 'l') else Single(v)
    t = t.lower()
    if t.startswith(':'):
        return S(t)
    if ':' in t and not t.endswith(':'):
        t = t.rsplit(':', 1)[1]
    if t == 'nil':
        return None
    return S(t)


# ------------------------------------------------------------------ environments
class Env:
    __slots__ = ('v', 'f', 'up')

    def __init__(self, up=None):
        self.v, self.f, self.up = {}, {}, up

    def var(self, s):
        e = self
        while e is not None:
            if s in e.v:
                return e
            e = e.up
        return None

    def fn(self, s):
        e = self
        while e is not None:
            if s in e.f:
                return e.f[s]
            e = e.up
        return None


class SymMac:
    def __init__(self, get, put):
        self.get, self.put = get, put


class LambdaList:
    def __init__(self, ll):
        self.req, self.opt, self.rest, self.key, self.aux, self.allow, self.haskey = [], [], None, [], [], False, False
        st = 'req'
        while ll is not None:
            if not isinstance(ll, Cons):
                self.rest = ll
                break
            x = ll.car
            ll = ll.cdr
            n = x.name if isinstance(x, Sym) else ''
            if n == '&optional':
                st = 'opt'
            elif n in ('&rest', '&body'):
                self.rest = ll.car
                ll = ll.cdr
            elif n == '&key':
                st = 'key'
                self.haskey = True
            elif n == '&allow-other-keys':
                self.allow = True
            elif n == '&aux':
                st = 'aux'
            elif n.startswith('&'):
                raise Unsupported('lambda list keyword ' + n)
            elif st == 'req':
                self.req.append(x)
            elif st == 'opt':
                self.opt.append(self.spec(x))
            elif st == 'key':
                y = self.spec(x)
                if isinstance(y[0], Cons):
                    kw, var = items(y[0])
                else:
                    kw, var = S(':' + y[0].name), y[0]
                self.key.append((kw, var, y[1], y[2]))
            else:
                self.aux.append(self.spec(x))

    @staticmethod
    def spec(x):
        if isinstance(x, Cons):
            l = items(x)
            return l[0], l[1] if len(l) > 1 else None, l[2] if len(l) > 2 else None
        return x, None, None

    def bind(self, I, env, args, what):
        if len(args) < len(self.req):
            raise lisp_error('program-error', 'too few arguments to %s' % what)
        for p, a in zip(self.req, args):
            self.assign(I, env, p, a, what)
        rest = args[len(self.req):]
        for var, d, sup in self.opt:
            if rest:
                self.assign(I, env, var, rest[0], what)
                rest = rest[1:]
                if sup:
                    env.v[sup] = T
            else:
                self.assign(I, env, var, I.ev1(d, env) if d is not None else None, what)
                if sup:
                    env.v[sup] = None
        if self.rest is not None:
            self.assign(I, env, self.rest, lst(rest), what)
        if self.haskey:
            if len(rest) % 2:
                raise lisp_error('program-error', 'odd number of keyword arguments to %s' % what)
            kv = {}
            for i in range(0, len(rest), 2):
                kv.setdefault(rest[i], rest[i + 1])
            known = set()
            for kw, var, d, sup in self.key:
                known.add(kw)
                if kw in kv:
                    env.v[var] = kv[kw]
                else:
                    env.v[var] = I.ev1(d, env) if d is not None else None
                if sup:
                    env.v[sup] = b(kw in kv)
            if not self.allow and kv.get(S(':allow-other-keys')) is None:
                for k in kv:
                    if k not in known and k is not S(':allow-other-keys'):
                        raise lisp_error('program-error', 'unknown keyword argument %s to %s' % (show(k), what))
        elif rest and self.rest is None:
            raise lisp_error('program-error', 'too many arguments to %s' % what)
        for var, d, _ in self.aux:
            env.v[var] = I.ev1(d, env) if d is not None else None

    @staticmethod
    def assign(I, env, p, a, what):
        if isinstance(p, Cons):
            LambdaList(p).bind(I, env, items(a), 'destructuring in %s' % what)
        elif p is not None:
            env.v[p] = a


class Closure:
    def __init__(self, I, name, ll, body, env, block=None):
        self.I, self.name, self.ll, self.env = I, name, ll if isinstance(ll, LambdaList) else LambdaList(ll), env
        self.body = strip(body)
        self.block = block

    def __call__(self, *args):
        e = Env(self.env)
        self.ll.bind(self.I, e, list(args), self.name)
        if self.block is None:
            return self.I.progn(self.body, e)
        tag = object()
        e.f[('block', self.block)] = tag
        try:
            return self.I.progn(self.body, e)
        except Return as r:
            if r.tag is tag:
                return r.value
            raise

    def __repr__(self):
        return '#<function %s>' % self.name


def strip(body):
    """Body without documentation and declarations."""
    l = list(body)
    if len(l) > 1 and isinstance(l[0], str):
        l = l[1:]
    while l and isinstance(l[0], Cons) and l[0].car is S('declare'):
        l = l[1:]
        if len(l) > 1 and isinstance(l[0], str):
            l = l[1:]
    return l


class Method:
    def __init__(self, qual, specs, fn):
        self.qual, self.specs, self.fn = qual, specs, fn


class Generic:
    def __init__(self, I, name):
        self.I, self.name, self.methods = I, name, []

    def add(self, m):
        self.methods = [x for x in self.methods if not (x.qual == m.qual and len(x.specs) == len(m.specs) and all(same_spec(p, q) for p, q in zip(x.specs, m.specs)))] + [m]

    def __call__(self, *args):
        I = self.I
        app = []
        for m in self.methods:
            if len(args) < len(m.specs):
                continue
            r = [I.spec_rank(s, a) for s, a in zip(m.specs, args)]
            if all(x is not None for x in r):
                app.append((tuple(r), m))
        app.sort(key=lambda x: x[0])
        prim = [m for _, m in app if m.qual is None]
        around = [m for _, m in app if m.qual == ':around']
        before = [m for _, m in app if m.qual == ':before']
        after = [m for _, m in app if m.qual == ':after']
        if not prim:
            raise lisp_error('undefined-function', 'no applicable method of %s for %s' % (self.name, ' '.join(show(a)[:60] for a in args)))

        def inner(*a):
            for m in before:
                m.fn(None, a)
            r = chain(prim)(*a)
            for m in reversed(after):
                m.fn(None, a)
            return r

        def chain(ms, last=None):
            def call(*a):
                if not ms:
                    if last is None:
                        raise lisp_error('control-error', 'no next method of %s' % self.name)
                    return last(*a)
                nxt = chain(ms[1:], last)
                nxt.more = bool(ms[1:]) or last is not None
                return ms[0].fn(nxt, a)
            call.more = bool(ms)
            return call
        return chain(around, inner)(*args)


def same_spec(p, q):
    return p is q or (isinstance(p, tuple) and isinstance(q, tuple) and p[1] == q[1])


SPECIAL, BUILTIN = {}, {}


def special(*names):
    def d(f):
        for n in names:
            SPECIAL[S(n)] = f
        return f
    return d


def fn(*names):
    def d(f):
        for n in names:
            BUILTIN[S(n)] = f
        return f
    return d


BUILTIN_CLASS = {'t': 99, 'integer': 1, 'number': 3, 'real': 2, 'string': 1, 'list': 2, 'symbol': 2, 'cons': 1, 'null': 1, 'function': 1, 'vector': 2, 'sequence': 3, 'array': 3, 'float': 1, 'pathname': 1,
                 'keyword': 1, 'atom': 50, 'hash-table': 1, 'character': 1, 'rational': 2, 'fixnum': 1, 'stream': 1, 'foreign-pointer': 1}


def typep(I, x, t):
    if isinstance(t, Class):
        return isinstance(x, Inst) and t in x.cls.mro()
    if isinstance(t, Cons):
        l = items(t)
        h = l[0].name
        if h == 'or':
            return any(typep(I, x, y) for y in l[1:])
        if h == 'and':
            return all(typep(I, x, y) for y in l[1:])
        if h == 'not':
            return not typep(I, x, l[1])
        if h == 'eql':
            return eql(x, l[1])
        if h == 'member':
            return any(eql(x, y) for y in l[1:])
        if h == 'satisfies':
            return I.function(l[1], None)(x) is not None
        if h in ('integer', 'mod', 'unsigned-byte', 'signed-byte'):
            if not isinstance(x, int):
                return False
            if h == 'integer':
                lo = l[1] if len(l) > 1 else S('*')
                hi = l[2] if len(l) > 2 else S('*')
                return (not isinstance(lo, int) or x >= lo) and (not isinstance(hi, int) or x <= hi)
            if h == 'mod':
                return 0 <= x < l[1]
            if h == 'unsigned-byte':
                return 0 <= x < 1 << l[1]
            return -(1 << (l[1] - 1)) <= x < 1 << (l[1] - 1)
        return typep(I, x, l[0])
    n = t.name if isinstance(t, Sym) else 'nil'
    n = n.lstrip(':')
    if n == 't':
        return True
    if n == 'nil':
        return False
    if n == 'integer' or n == 'fixnum' or n == 'bignum':
        return isinstance(x, int)
    if n == 'unsigned-byte':
        return isinstance(x, int) and x >= 0
    if n == 'number' or n == 'real':
        return isinstance(x, (int, float, Fraction))
    if n == 'rational':
        return isinstance(x, (int, Fraction))
    if n == 'ratio':
        return isinstance(x, Fraction)
    if n == 'float':
        return isinstance(x, float)
    if n == 'single-float' or n == 'short-float':
        return isinstance(x, Single)
    if n == 'double-float' or n == 'long-float':
        return isinstance(x, float) and not isinstance(x, Single)
    if n in ('string', 'simple-string', 'base-string'):
        return isinstance(x, str)
    if n == 'list':
        return x is None or isinstance(x, Cons)
    if n == 'cons':
        return isinstance(x, Cons)
    if n == 'null':
        return x is None
    if n == 'atom':
        return not isinstance(x, Cons)
    if n == 'symbol':
        return x is None or isinstance(x, Sym)
    if n == 'keyword':
        return isinstance(x, Sym) and x.name.startswith(':')
    if n == 'boolean':
        return x is None or x is T
    if n in ('function', 'compiled-function'):
        return callable(x) and not isinstance(x, Class)
    if n in ('vector', 'simple-vector', 'array', 'simple-array'):
        return isinstance(x, list) or (isinstance(x, str) and not n.startswith('simple-v'))
    if n == 'sequence':
        return x is None or isinstance(x, (Cons, list, str))
    if n == 'character':
        return isinstance(x, Char)
    if n == 'hash-table':
        return isinstance(x, Hash)
    if n == 'foreign-pointer':
        return type(x).__name__ == 'Ptr'
    if n == 'stream':
        return type(x).__name__ == 'Stream'
    if n == 'pathname':
        return False
    if S(n) in I.classes:
        return typep(I, x, I.classes[S(n)])
    if n in ERRS or S(n) in I.conditions:
        if not isinstance(x, Cond):
            return False
        k = x.obj[0]
        while k is not None:
            if k == n:
                return True
            k = I.conditions.get(S(k), ERRS.get(k))
        return False
    if n in I.types:
        return typep(I, x, I.types[n])
    raise Unsupported('type ' + n)


class Interp:
    def __init__(self):
        self.g = Env()
        self.classes, self.conditions, self.types, self.macros, self.setfs, self.hooks = {}, {}, {}, {}, {}, {}
        self.rng = _random.Random(1)
        self.root = Class('standard-object', [], [])
        self.iters = []
        self.steps = 0
        self.limit = None
        self.finalizers = {}
        self.restarts = []
        ii = Generic(self, 'initialize-instance')
        ii.add(Method(None, [], lambda nxt, a: a[0]))
        self.g.f[S('initialize-instance')] = ii

    # ---- classes
    def spec_rank(self, s, a):
        if s is None:
            return 1000
        if isinstance(s, tuple):
            return 0 if eql(s[1], a) else None
        if isinstance(s, Class):
            if isinstance(a, Inst):
                m = a.cls.mro()
                return 1 + m.index(s) if s in m else None
            return None
        if typep(self, a, s):
            return 100 + BUILTIN_CLASS.get(s.name, 10)
        return None

    def find_class(self, s):
        c = self.classes.get(s)
        return c

    # ---- evaluation
    def progn(self, body, env):
        r = None
        for f in body:
            r = self.ev(f, env)
        return r

    def ev1(self, f, env):
        r = self.ev(f, env)
        return r if not isinstance(r, MV) else one(r)

    def ev(self, f, env):
        if isinstance(f, Sym):
            if f.name[0] == ':' or f is T:
                return f
            e = env.var(f)
            if e is None:
                e = self.g if f in self.g.v else None
                if e is None:
                    raise lisp_error('unbound-variable', f.name)
            v = e.v[f]
            if isinstance(v, SymMac):
                return v.get()
            return v
        if not isinstance(f, Cons):
            return f
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            raise Unsupported('step limit')
        op = f.car
        if isinstance(op, Cons) and op.car is LAMBDA:
            c = self.closure(op, env)
            return c(*[self.ev1(x, env) for x in items(f.cdr)])
        if not isinstance(op, Sym):
            raise Unsupported('operator %s' % show(op))
        loc = env.fn(op)
        if loc is None:
            h = self.iters and ITER_OPS.get(op)
            if h:
                return h(self, f, env)
            sp = SPECIAL.get(op)
            if sp is not None:
                return sp(self, f, env)
            m = self.macros.get(op)
            if m is not None:
                return self.ev(one(m(*items(f.cdr))), env)
            loc = self.g.f.get(op) or BUILTIN.get(op)
            if loc is None:
                raise Unsupported('undefined function %s' % op.name)
        if isinstance(loc, tuple) and loc[0] == 'macro':
            return self.ev(one(loc[1](*items(f.cdr))), env)
        args = []
        l = f.cdr
        while l is not None:
            args.append(self.ev1(l.car, env))
            l = l.cdr
        return self.call(loc, args, op)

    def call(self, c, args, what=None):
        if c is None or not callable(c):
            raise lisp_error('type-error', 'not a function: %s' % show(c))
        if isinstance(c, (Closure, Generic)):
            return c(*args)
        try:
            if getattr(c, 'interp', False):
                return c(self, *args)
            return c(*args)
        except ZeroDivisionError:
            raise lisp_error('division-by-zero', show(what))
        except (TypeError, AttributeError, IndexError, ValueError, KeyError, OverflowError) as e:
            # neither a supported use nor an error that this evaluator models
            raise Unsupported('(%s %s): %r' % (what or getattr(c, '__name__', '?'), ' '.join(show(a)[:80] for a in args), e))

    def function(self, x, env):
        if isinstance(x, Cons):
            if x.car is LAMBDA:
                return self.closure(x, env)
            if x.car is S('setf'):
                g = self.setfs.get(x.cdr.car)
                if g is None:
                    raise Unsupported('function %s' % show(x))
                return g
            raise Unsupported('function %s' % show(x))
        if x is None:
            raise lisp_error('undefined-function', 'nil')
        r = env.fn(x) if env is not None else None
        if r is None or isinstance(r, tuple):
            r = self.g.f.get(x) or BUILTIN.get(x)
        if r is None:
            raise Unsupported('undefined function %s' % x.name)
        return r

    def designator(self, x, env=None):
        if isinstance(x, Sym):
            return self.function(x, env)
        if x is None or not callable(x):
            raise lisp_error('type-error', 'not a function: %s' % show(x))
        return x

    def fc(self, f, *args):
        return one(self.call(self.designator(f), list(args)))

    def closure(self, x, env, name='lambda', block=None):
        l = x.cdr
        return Closure(self, name, l.car, items(l.cdr), env, block)

    def truthy(self, f, env):
        return self.ev1(f, env) is not None

    # ---- places
    def setf(self, place, value, env):
        if isinstance(place, Sym):
            e = env.var(place)
            if e is None:
                e = self.g
            v = e.v.get(place)
            if isinstance(v, SymMac):
                v.put(value)
            else:
                e.v[place] = value
            return value
        op, args = place.car, items(place.cdr)
        n = op.name
        if n in ('the',):
            return self.setf(args[1], value, env)
        if n == 'getf':
            pl = self.ev1(args[0], env)
            k = self.ev1(args[1], env)
            l = items(pl)
            for i in range(0, len(l), 2):
                if l[i] is k:
                    l[i + 1] = value
                    break
            else:
                l = [k, value] + l
            self.setf(args[0], lst(l), env)
            return value
        if n in ('ldb', 'mask-field'):
            raise Unsupported('setf ldb')
        if n == 'values':
            vs = value.v if isinstance(value, MV) else [value]
            for i, p in enumerate(args):
                self.setf(p, vs[i] if i < len(vs) else None, env)
            return value
        a = [self.ev1(x, env) for x in args]
        value = one(value)
        if n in ('car', 'first'):
            a[0].car = value
        elif n in ('cdr', 'rest'):
            a[0].cdr = value
        elif n in ('second', 'third', 'cadr', 'caddr', 'cddr', 'cdar', 'caar', 'cdadr'):
            c = a[0]
            path = {'second': 'cdr car', 'cadr': 'cdr car', 'third': 'cdr cdr car', 'caddr': 'cdr cdr car', 'cddr': 'cdr cdr', 'cdar': 'car cdr', 'caar': 'car car', 'cdadr': 'cdr car cdr'}[n].split()
            for p in path[:-1]:
                c = getattr(c, p)
            setattr(c, path[-1], value)
        elif n in ('elt', 'aref', 'svref'):
            s, i = a[0], a[1]
            if not isinstance(i, int) or i < 0:
                raise lisp_error('type-error', 'index %s' % show(i))
            if isinstance(s, list):
                if i >= len(s):
                    raise lisp_error('index-error', 'index %d of %d' % (i, len(s)))
                s[i] = value
            elif isinstance(s, Cons):
                for _ in range(i):
                    s = s.cdr
                s.car = value
            else:
                raise Unsupported('setf elt of %s' % show(s)[:50])
        elif n == 'nth':
            c = a[1]
            for _ in range(a[0]):
                c = c.cdr
            c.car = value
        elif n == 'gethash':
            a[1].put(a[0], value)
        elif n == 'slot-value':
            a[0].slots[a[1]] = value
        elif n in ('symbol-value',):
            self.g.v[a[0]] = value
        elif n in self.hooks:
            self.hooks[n](self, value, *a)
        elif op in self.setfs:
            self.call(self.setfs[op], [value] + a, 'setf ' + n)
        else:
            raise Unsupported('setf of %s' % n)
        return value

    # ---- loading
    def load(self, text, curry=True):
        r = Reader(text, 0, curry)
        while True:
            r.ws()
            if r.i >= len(text):
                return
            try:
                f = r.read()
            except EOF:
                raise Unsupported('unbalanced Lisp source')
            except (ReadError, IndexError, ValueError) as e:
                raise Unsupported('reader: %s' % e)
            self.ev(f, self.g)


def interp(f):
    f.interp = True
    return f


# ------------------------------------------------------------------ special forms
@special('quote')
def _(I, f, env):
    return f.cdr.car


@special('function')
def _(I, f, env):
    return I.function(f.cdr.car, env)


@special('lambda')
def _(I, f, env):
    return I.closure(f, env)


@special('%compose')
def _(I, f, env):
    fs = [I.ev1(x, env) for x in items(f.cdr)]

    def comp(*a):
        r = I.call(I.designator(fs[-1]), list(a))
        for g in reversed(fs[:-1]):
            r = I.call(I.designator(g), [one(r)])
        return r
    return comp


@special('%curry')
def _(I, f, env):
    l = items(f.cdr)
    fun = I.function(l[0], env) if isinstance(l[0], Sym) and l[0].name[0] != ':' else I.ev1(l[0], env)
    args = l[1:]
    if any(isinstance(x, Sym) and x.name == '_' for x in args):
        vals = [None if isinstance(x, Sym) and x.name == '_' else I.ev1(x, env) for x in args]
        hole = [isinstance(x, Sym) and x.name == '_' for x in args]

        def c(*a):
            a = list(a)
            out = []
            for h, v in zip(hole, vals):
                out.append(a.pop(0) if h else v)
            return I.call(I.designator(fun), out + a)
        return c
    vals = [I.ev1(x, env) for x in args]
    return lambda *a: I.call(I.designator(fun), vals + list(a))


@special('%quasi')
def _(I, f, env):
    def q(x, d):
        if isinstance(x, list):
            return [y for z in x for y in [q(z, d)]]
        if not isinstance(x, Cons):
            return x
        if x.car is UNQ:
            if d == 1:
                return I.ev1(x.cdr.car, env)
            return lst([UNQ, q(x.cdr.car, d - 1)])
        if x.car is QUASI:
            return lst([QUASI, q(x.cdr.car, d + 1)])
        if isinstance(x.car, Cons) and x.car.car is UNQS and d == 1:
            v = I.ev1(x.car.cdr.car, env)
            rest = q(x.cdr, d)
            if rest is None:
                return v
            return lst(items(v), rest)
        return Cons(q(x.car, d), q(x.cdr, d))
    return q(f.cdr.car, 1)


@special('if')
def _(I, f, env):
    l = f.cdr
    if I.ev1(l.car, env) is not None:
        return I.ev(l.cdr.car, env)
    return I.ev(l.cdr.cdr.car, env) if l.cdr.cdr is not None else None


@special('when')
def _(I, f, env):
    return I.progn(items(f.cdr.cdr), env) if I.truthy(f.cdr.car, env) else None


@special('unless')
def _(I, f, env):
    return I.progn(items(f.cdr.cdr), env) if not I.truthy(f.cdr.car, env) else None


@special('cond')
def _(I, f, env):
    for c in items(f.cdr):
        v = I.ev1(c.car, env)
        if v is not None:
            return I.progn(items(c.cdr), env) if c.cdr is not None else v
    return None


@special('and')
def _(I, f, env):
    r = T
    for x in items(f.cdr):
        r = I.ev(x, env)
        if one(r) is None:
            return None
    return r


@special('or')
def _(I, f, env):
    for x in items(f.cdr):
        r = I.ev1(x, env)
        if r is not None:
            return r
    return None


@special('progn', 'eval-when', 'locally', 'with-compilation-unit', 'save-excursion')
def _(I, f, env):
    l = items(f.cdr)
    return I.progn(strip(l[1:] if f.car.name == 'eval-when' else l), env)


@special('prog1')
def _(I, f, env):
    l = items(f.cdr)
    r = I.ev1(l[0], env)
    I.progn(l[1:], env)
    return r


@special('prog2')
def _(I, f, env):
    l = items(f.cdr)
    I.ev(l[0], env)
    r = I.ev1(l[1], env)
    I.progn(l[2:], env)
    return r


@special('let')
def _(I, f, env):
    e = Env(env)
    for x in items(f.cdr.car):
        if isinstance(x, Cons):
            e.v[x.car] = I.ev1(x.cdr.car, env) if x.cdr is not None else None
        else:
            e.v[x] = None
    return body_special(I, f, env, e)


def body_special(I, f, env, e):
    """Bindings of global (special) variables are dynamic."""
    dyn = [(k, I.g.v[k]) for k in e.v if k in I.g.v and k.name.startswith('*')]
    for k, _ in dyn:
        I.g.v[k] = e.v.pop(k)
    try:
        return I.progn(strip(items(f.cdr.cdr)), e)
    finally:
        for k, v in dyn:
            I.g.v[k] = v


@special('let*', 'let1')
def _(I, f, env):
    e = env
    bs = items(f.cdr.car) if f.car.name == 'let*' else [lst([f.cdr.car, f.cdr.cdr.car])]
    undo = []
    try:
        for x in bs:
            n = Env(e)
            k = x.car if isinstance(x, Cons) else x
            v = I.ev1(x.cdr.car, e) if isinstance(x, Cons) and x.cdr is not None else None
            if k in I.g.v and k.name.startswith('*'):
                undo.append((k, I.g.v[k]))
                I.g.v[k] = v
            else:
                n.v[k] = v
            e = n
        body = items(f.cdr.cdr) if f.car.name == 'let*' else items(f.cdr.cdr.cdr)
        return I.progn(strip(body), Env(e))
    finally:
        for k, v in reversed(undo):
            I.g.v[k] = v


@special('labels', 'flet', 'fbind', 'fbind*', 'fbindrec')
def _(I, f, env):
    e = Env(env)
    rec = f.car.name == 'labels'
    if f.car.name.startswith('fbind'):
        raise Unsupported(f.car.name)
    for d in items(f.cdr.car):
        e.f[d.car] = Closure(I, d.car.name, d.cdr.car, items(d.cdr.cdr), e if rec else env, d.car)
    return I.progn(strip(items(f.cdr.cdr)), e)


@special('macrolet')
def _(I, f, env):
    e = Env(env)
    for d in items(f.cdr.car):
        e.f[d.car] = ('macro', Closure(I, d.car.name, d.cdr.car, items(d.cdr.cdr), env, d.car))
    return I.progn(strip(items(f.cdr.cdr)), e)


@special('symbol-macrolet')
def _(I, f, env):
    e = Env(env)
    for d in items(f.cdr.car):
        form = d.cdr.car
        e.v[d.car] = SymMac(lambda form=form: I.ev1(form, env), lambda v, form=form: I.setf(form, v, env))
    return I.progn(strip(items(f.cdr.cdr)), e)


@special('with-slots', 'with-accessors')
def _(I, f, env):
    o = I.ev1(f.cdr.cdr.car, env)
    e = Env(env)
    for d in items(f.cdr.car):
        v, s = items(d) if isinstance(d, Cons) else (d, d)
        if f.car.name == 'with-slots':
            e.v[v] = SymMac(lambda s=s: slot_value(o, s), lambda x, s=s: o.slots.__setitem__(s, x))
        else:
            e.v[v] = SymMac(lambda s=s: I.fc(s, o), lambda x, s=s: I.call(I.setfs[s], [x, o]))
    return I.progn(strip(items(f.cdr.cdr.cdr)), e)


@special('setf', 'setq', 'psetf')
def _(I, f, env):
    l = items(f.cdr)
    r = None
    for i in range(0, len(l), 2):
        v = I.ev(l[i + 1], env)
        if not (isinstance(l[i], Cons) and l[i].car is S('values')):
            v = one(v)
        r = I.setf(l[i], v, env)
    return r


@special('push')
def _(I, f, env):
    v = I.ev1(f.cdr.car, env)
    p = f.cdr.cdr.car
    return I.setf(p, Cons(v, I.ev1(p, env)), env)


@special('pushnew')
def _(I, f, env):
    l = items(f.cdr)
    v = I.ev1(l[0], env)
    kw = keys([I.ev1(x, env) for x in l[2:]], 'test', 'key', 'test-not')
    cur = I.ev1(l[1], env)
    if any(tst(I, kw, v, kf(I, kw, x)) for x in items(cur)):
        return cur
    return I.setf(l[1], Cons(v, cur), env)


@special('appendf', 'nconcf', 'reversef', 'maxf', 'minf', 'unionf')
def _(I, f, env):
    l = items(f.cdr)
    n = f.car.name
    cur = I.ev1(l[0], env)
    a = [I.ev1(x, env) for x in l[1:]]
    if n in ('appendf', 'nconcf'):
        return I.setf(l[0], lst([y for x in [cur] + a for y in items(x)]), env)
    if n == 'reversef':
        return I.setf(l[0], like(cur, list(reversed(seq(cur)))), env)
    if n in ('maxf', 'minf'):
        return I.setf(l[0], (max if n == 'maxf' else min)([cur] + a), env)
    raise Unsupported(n)


@special('pop')
def _(I, f, env):
    c = I.ev1(f.cdr.car, env)
    if c is None:
        return None
    I.setf(f.cdr.car, c.cdr, env)
    return c.car


@special('incf', 'decf')
def _(I, f, env):
    l = items(f.cdr)
    d = I.ev1(l[1], env) if len(l) > 1 else 1
    c = I.ev1(l[0], env)
    num(c), num(d)
    return I.setf(l[0], c + d if f.car.name == 'incf' else c - d, env)


@special('assert')
def _(I, f, env):
    l = items(f.cdr)
    if I.ev1(l[0], env) is None:
        msg = I.ev1(l[2], env) if len(l) > 2 else 'assertion %s failed' % show(l[0])
        raise lisp_error('simple-error', show(msg))
    return None


@special('check-type')
def _(I, f, env):
    l = items(f.cdr)
    if not typep(I, I.ev1(l[0], env), l[1]):
        raise lisp_error('type-error', '%s is not of type %s' % (show(l[0]), show(l[1])))
    return None


@special('the', 'truly-the', 'assure')
def _(I, f, env):
    return I.ev(f.cdr.cdr.car, env)


@special('declare', 'declaim', 'proclaim', 'in-package', 'in-readtable', 'defpackage', 'uiop:define-package', 'define-package', '->', 'ftype', 'define-foreign-library', 'use-foreign-library', 'defroot', 'defsuite')
def _(I, f, env):
    return None


@special('block')
def _(I, f, env):
    e = Env(env)
    tag = object()
    e.f[('block', f.cdr.car)] = tag
    try:
        return I.progn(items(f.cdr.cdr), e)
    except Return as r:
        if r.tag is tag:
            return r.value
        raise


def ret(I, name, form, env):
    e = env
    while e is not None:
        if ('block', name) in e.f:
            raise Return(e.f[('block', name)], I.ev(form, env) if form is not None else None)
        e = e.up
    raise Unsupported('return from %s' % show(name))


@special('return-from')
def _(I, f, env):
    ret(I, f.cdr.car, f.cdr.cdr.car if f.cdr.cdr is not None else None, env)


@special('return')
def _(I, f, env):
    ret(I, None, f.cdr.car if f.cdr is not None else None, env)


@special('unwind-protect')
def _(I, f, env):
    try:
        return I.ev(f.cdr.car, env)
    finally:
        I.progn(items(f.cdr.cdr), env)


@special('handler-case')
def _(I, f, env):
    l = items(f.cdr)
    try:
        r = I.ev(l[0], env)
    except Cond as c:
        for cl in l[1:]:
            if cl.car is S(':no-error'):
                continue
            if typep(I, c, cl.car):
                e = Env(env)
                a = items(cl.cdr.car)
                if a:
                    e.v[a[0]] = c
                return I.progn(strip(items(cl.cdr.cdr)), e)
        raise
    for cl in l[1:]:
        if cl.car is S(':no-error'):
            e = Env(env)
            LambdaList(cl.cdr.car).bind(I, e, r.v if isinstance(r, MV) else [r], ':no-error')
            return I.progn(strip(items(cl.cdr.cdr)), e)
    return r


@special('ignore-errors', 'ignore-some-conditions')
def _(I, f, env):
    if f.car.name != 'ignore-errors':
        raise Unsupported(f.car.name)
    try:
        return I.progn(items(f.cdr), env)
    except Cond as c:
        if typep(I, c, S('error')):
            return MV([None, c])
        raise


@special('handler-bind')
def _(I, f, env):
    l = items(f.cdr)
    try:
        return I.progn(l[1:], env)
    except Cond as c:
        for h in items(l[0]):
            if typep(I, c, h.car):
                I.fc(I.ev1(h.cdr.car, env), c)
        raise


@special('restart-case', 'with-simple-restart')
def _(I, f, env):
    if f.car.name == 'with-simple-restart':
        return I.progn(items(f.cdr.cdr), env)
    tag = object()
    l = items(f.cdr)
    I.restarts.append({c.car: (tag, c) for c in l[1:]})
    try:
        return I.ev(l[0], env)
    except Return as r:
        if r.tag is not tag:
            raise
        c, args = r.value
        e = Env(env)
        LambdaList(c.cdr.car).bind(I, e, args, 'restart')
        body = items(c.cdr.cdr)
        while body and isinstance(body[0], Sym) and body[0].name in (':report', ':interactive', ':test'):
            body = body[2:]
        return I.progn(strip(body), e)
    finally:
        I.restarts.pop()


@fn('invoke-restart')
@interp
def _(I, name, *a):
    for r in reversed(I.restarts):
        if name in r:
            tag, c = r[name]
            raise Return(tag, (c, list(a)))
    raise lisp_error('control-error', 'no restart %s' % show(name))


@special('case', 'ecase', 'ccase', 'string-case', 'string-ecase')
def _(I, f, env):
    v = I.ev1(f.cdr.car, env)
    st = f.car.name.startswith('string')
    for c in items(f.cdr.cdr):
        k = c.car
        if (k is T or k is S('otherwise')) and f.car.name in ('case', 'string-case'):
            return I.progn(items(c.cdr), env)
        ks = items(k) if isinstance(k, Cons) else [k] if k is not None else []
        if any((v == x if st else eql(v, x)) for x in ks):
            return I.progn(items(c.cdr), env)
    if f.car.name in ('ecase', 'ccase', 'string-ecase'):
        raise lisp_error('type-error', '%s fell through ecase' % show(v))
    return None


@special('typecase', 'etypecase')
def _(I, f, env):
    v = I.ev1(f.cdr.car, env)
    for c in items(f.cdr.cdr):
        if c.car is T or c.car is S('otherwise') or typep(I, v, c.car):
            return I.progn(items(c.cdr), env)
    if f.car.name == 'etypecase':
        raise lisp_error('type-error', '%s fell through etypecase' % show(v))
    return None


@special('when-let', 'if-let', 'when-let*', 'if-let*', 'and-let*')
def _(I, f, env):
    n = f.car.name
    bs = f.cdr.car
    bs = [bs] if isinstance(bs, Cons) and isinstance(bs.car, Sym) and n not in ('and-let*',) else items(bs)
    e = Env(env)
    ok = True
    star = n.endswith('*')
    for x in bs:
        if star:
            e = Env(e)
        if isinstance(x, Cons) and isinstance(x.car, Sym) and x.cdr is not None and x.cdr.cdr is None and not (n == 'and-let*' and x.cdr is None):
            v = I.ev1(x.cdr.car, e if star else env)
            e.v[x.car] = v
        elif isinstance(x, Cons):
            v = I.ev1(x.car, e)
        else:
            v = I.ev1(x, e)
        if v is None:
            ok = False
            if star:
                break
    rest = items(f.cdr.cdr)
    if n.startswith('if'):
        return I.ev(rest[0], e) if ok else (I.ev(rest[1], env) if len(rest) > 1 else None)
    return I.progn(strip(rest), Env(e)) if ok else None


@special('nest')
def _(I, f, env):
    l = items(f.cdr)
    r = l[-1]
    for x in reversed(l[:-1]):
        r = lst(items(x) + [r])
    return I.ev(r, env)


@special('~>', '~>>')
def _(I, f, env):
    l = items(f.cdr)
    r = l[0]
    for x in l[1:]:
        if isinstance(x, Sym) or (isinstance(x, Cons) and x.car in (FUNCTION, LAMBDA, CURRY, COMPOSE)):
            r = lst([x, r]) if isinstance(x, Sym) else lst([S('funcall'), x, r])
            continue
        xs = items(x)
        if S('_') in xs:
            r = lst([r if y is S('_') else y for y in xs])
        elif f.car.name == '~>':
            r = lst([xs[0], r] + xs[1:])
        else:
            r = lst(xs + [r])
    return I.ev(r, env)


@special('destructuring-bind')
def _(I, f, env):
    e = Env(env)
    LambdaList(f.cdr.car).bind(I, e, items_dotted(I.ev1(f.cdr.cdr.car, env), f.cdr.car), 'destructuring-bind')
    return I.progn(strip(items(f.cdr.cdr.cdr)), e)


def items_dotted(v, ll):
    """Arguments for a lambda list; a dotted value against (a . b)."""
    out = []
    n = 0
    l = ll
    while isinstance(l, Cons):
        n += 1
        l = l.cdr
    if l is not None:      # dotted lambda list: the rest is whatever remains
        for _ in range(n):
            if not isinstance(v, Cons):
                raise lisp_error('type-error', 'destructuring %s' % show(v))
            out.append(v.car)
            v = v.cdr
        if v is None or isinstance(v, Cons):
            return out + items(v)
        raise Unsupported('dotted value')
    return items(v)


@special('multiple-value-bind', 'receive')
def _(I, f, env):
    v = I.ev(f.cdr.cdr.car, env)
    v = v.v if isinstance(v, MV) else [v]
    e = Env(env)
    for i, s in enumerate(items(f.cdr.car)):
        e.v[s] = v[i] if i < len(v) else None
    return I.progn(strip(items(f.cdr.cdr.cdr)), e)


@special('multiple-value-list')
def _(I, f, env):
    v = I.ev(f.cdr.car, env)
    return lst(v.v if isinstance(v, MV) else [v])


@special('nth-value')
def _(I, f, env):
    n = I.ev1(f.cdr.car, env)
    v = I.ev(f.cdr.cdr.car, env)
    v = v.v if isinstance(v, MV) else [v]
    return v[n] if n < len(v) else None


@special('mvlet*', 'mvlet')
def _(I, f, env):
    e = Env(env)
    for x in items(f.cdr.car):
        x = items(x)
        v = I.ev(x[-1], e if f.car.name == 'mvlet*' else env)
        v = v.v if isinstance(v, MV) else [v]
        for i, s in enumerate(x[:-1]):
            e.v[s] = v[i] if i < len(v) else None
    return I.progn(strip(items(f.cdr.cdr)), e)


@special('dolist', 'do-list')
def _(I, f, env):
    l = items(f.cdr.car)
    tag = object()
    e = Env(env)
    e.f[('block', None)] = tag
    try:
        for x in items(I.ev1(l[1], env)):
            e2 = Env(e)
            e2.v[l[0]] = x
            I.progn(strip(items(f.cdr.cdr)), e2)
        return I.ev(l[2], e) if len(l) > 2 else None
    except Return as r:
        if r.tag is tag:
            return r.value
        raise


@special('dotimes')
def _(I, f, env):
    l = items(f.cdr.car)
    tag = object()
    e = Env(env)
    e.f[('block', None)] = tag
    try:
        n = I.ev1(l[1], env)
        num(n)
        for x in range(n):
            e2 = Env(e)
            e2.v[l[0]] = x
            I.progn(strip(items(f.cdr.cdr)), e2)
        return I.ev(l[2], e) if len(l) > 2 else None
    except Return as r:
        if r.tag is tag:
            return r.value
        raise


@special('doseq', 'do-each')
def _(I, f, env):
    l = items(f.cdr.car)
    for x in list(seq(I.ev1(l[1], env))):
        e2 = Env(env)
        e2.v[l[0]] = x
        I.progn(strip(items(f.cdr.cdr)), e2)
    return None


@special('defun', 'defsubst', 'defun-inline')
def _(I, f, env):
    n = f.cdr.car
    l = f.cdr.cdr
    if isinstance(n, Cons):
        I.setfs[n.cdr.car] = Closure(I, show(n), l.car, items(l.cdr), env, n.cdr.car)
        return n
    I.g.f[n] = Closure(I, n.name, l.car, items(l.cdr), env, n)
    return n


@special('defmacro')
def _(I, f, env):
    n = f.cdr.car
    I.macros[n] = Closure(I, n.name, f.cdr.cdr.car, items(f.cdr.cdr.cdr), env, n)
    return n


@special('defvar', 'defparameter', 'defconst', 'defconstant', 'define-constant')
def _(I, f, env):
    l = items(f.cdr)
    if len(l) > 1 and not (f.car.name == 'defvar' and l[0] in I.g.v):
        I.g.v[l[0]] = I.ev1(l[1], env)
    return l[0]


@special('deftype')
def _(I, f, env):
    l = items(f.cdr)
    if l[1] is None:
        I.types[l[0].name] = I.ev1(strip(l[2:])[-1], env)
    return l[0]


@special('define-condition')
def _(I, f, env):
    l = items(f.cdr)
    I.conditions[l[0]] = items(l[1])[0].name if l[1] is not None else 'condition'
    return l[0]


@special('defclass')
def _(I, f, env):
    l = items(f.cdr)
    sup = [I.classes.get(s) for s in items(l[1])]
    if None in sup:
        raise Unsupported('superclass of %s' % l[0].name)
    slots = []
    c = Class(l[0].name, sup or [I.root], slots)
    I.classes[l[0]] = c
    for s in items(l[2]):
        s = items(s) if isinstance(s, Cons) else [s]
        d = dict(name=s[0], initargs=[], initform=None, has=False)
        for i in range(1, len(s), 2):
            k = s[i].name
            if k == ':initarg':
                d['initargs'].append(s[i + 1])
            elif k == ':initform':
                d['initform'], d['has'] = s[i + 1], True
            elif k in (':accessor', ':reader', ':writer'):
                n, sn = s[i + 1], s[0]
                if k != ':writer':
                    generic(I, n).add(Method(None, [c], lambda nxt, a, sn=sn: slot_value(a[0], sn)))
                if k == ':accessor':
                    def put(v, o, sn=sn):
                        o.slots[sn] = v
                        return v
                    setf_generic(I, n).add(Method(None, [None, c], lambda nxt, a, sn=sn: a[1].slots.__setitem__(sn, a[0])))
        slots.append(d)
    return l[0]


def setf_generic(I, n):
    g = I.setfs.get(n)
    if not isinstance(g, Generic):
        g = I.setfs[n] = Generic(I, '(setf %s)' % n.name)
    return g


def slot_value(o, s):
    if not isinstance(o, Inst):
        raise lisp_error('type-error', 'slot of %s' % show(o))
    if s not in o.slots:
        raise lisp_error('unbound-slot', s.name) if any(d['name'] is s for c in o.cls.mro() for d in c.slots) else lisp_error('simple-error', 'no slot %s in %s' % (s.name, o.cls.name))
    return o.slots[s]


ERRS['unbound-slot'] = 'cell-error'


@special('defgeneric')
def _(I, f, env):
    g = generic(I, f.cdr.car)
    for o in items(f.cdr.cdr.cdr):
        if isinstance(o, Cons) and o.car is S(':method'):
            defmethod(I, g, items(o.cdr), env)
    return f.cdr.car


def generic(I, n):
    g = I.g.f.get(n)
    if not isinstance(g, Generic):
        g = I.g.f[n] = Generic(I, n.name)
        if n in BUILTIN:
            old = BUILTIN[n]
            g.add(Method(None, [], lambda nxt, a: I.call(old, list(a), n)))
    return g


@special('defmethod')
def _(I, f, env):
    n = f.cdr.car
    g = setf_generic(I, n.cdr.car) if isinstance(n, Cons) else generic(I, n)
    defmethod(I, g, items(f.cdr.cdr), env)
    return n


def defmethod(I, g, l, env):
    qual = None
    while isinstance(l[0], Sym):
        qual = l[0].name
        l = l[1:]
    if qual not in (None, ':after', ':before', ':around'):
        raise Unsupported('method qualifier ' + qual)
    specs, ll = [], []
    req = True
    for x in items(l[0]):
        if isinstance(x, Sym) and x.name.startswith('&'):
            req = False
        if req:
            if isinstance(x, Cons):
                s = x.cdr.car
                if isinstance(s, Cons):
                    if s.car is not S('eql'):
                        raise Unsupported('specializer')
                    s = ('eql', I.ev1(s.cdr.car, env))
                elif s is T:
                    s = None
                elif s in I.classes:
                    s = I.classes[s]
                specs.append(s)
                x = x.car
            else:
                specs.append(None)
        ll.append(x)
    lam = LambdaList(lst(ll))
    if lam.haskey:
        lam.allow = True    # the generic function decides which keywords are acceptable
    body = strip(l[1:])
    name = g.name

    def run(nxt, args):
        e = Env(env)
        lam.bind(I, e, list(args), name)
        if nxt is not None:
            e.f[S('call-next-method')] = lambda *a: nxt(*(a or args))
            e.f[S('next-method-p')] = lambda: b(nxt.more)
        tag = object()
        e.f[('block', S(name))] = tag
        try:
            return I.progn(body, e)
        except Return as r:
            if r.tag is tag:
                return r.value
            raise
    g.add(Method(qual, specs, run))


@special('with-open-file', 'with-output-to-string', 'with-input-from-string', 'loop-finish', 'tagbody', 'go', 'do', 'do*', 'prog', 'catch', 'throw', 'progv', 'defstruct', 'match', 'ematch')
def _(I, f, env):
    raise Unsupported(f.car.name)


@special('with-mutex', 'with-lock-held', 'synchronized', 'with-recursive-lock-held')
def _(I, f, env):
    return I.progn(items(f.cdr.cdr), env)


@special('time')
def _(I, f, env):
    return I.ev(f.cdr.car, env)


@special('lret', 'lret*')
def _(I, f, env):
    e = Env(env)
    last = None
    for x in items(f.cdr.car):
        last = x.car if isinstance(x, Cons) else x
        e.v[last] = I.ev1(x.cdr.car, e if f.car.name == 'lret*' else env) if isinstance(x, Cons) and x.cdr is not None else None
    I.progn(strip(items(f.cdr.cdr)), e)
    return e.v[last]


# ------------------------------------------------------------------ iterate
class Iter:
    def __init__(self):
        self.acc, self.rtype, self.intos, self.state, self.value, self.has = None, None, {}, {}, None, False


ITER_OPS = {}
NOITER = object()


def iterop(*names):
    def d(f):
        for n in names:
            ITER_OPS[S(n)] = f
        return f
    return d


@special('iter', 'iterate')
def _(I, f, env):
    body = items(f.cdr)
    if body and isinstance(body[0], Sym):
        body = body[1:]
    ctx = Iter()
    e = Env(env)
    tag = object()
    e.f[('block', None)] = tag
    ctx.env = e
    fin = []
    drivers = []
    for x in body:
        if isinstance(x, Cons) and x.car is S('finally'):
            fin += items(x.cdr)
        elif isinstance(x, Cons) and x.car in (S('with'), S('initially')):
            l = items(x.cdr)
            if x.car is S('with'):
                e.v[l[0]] = I.ev1(l[2], e) if len(l) > 2 else None
            else:
                I.progn(l, e)
        else:
            drivers.append(x)
    # variables of drivers and accumulations exist from the start
    for x in drivers:
        if isinstance(x, Cons) and x.car in (S('for'), S('as'), S('generate')):
            declare_vars(e, x.cdr.car)
    scan_into(drivers, e)
    I.iters.append(ctx)
    try:
        try:
            while True:
                try:
                    for x in drivers:
                        if isinstance(x, Cons) and x.car in (S('for'), S('as')):
                            iter_for(I, ctx, x, e)
                        else:
                            I.ev(x, e)
                except NextIter as n:
                    if n.ctx is not ctx:
                        raise
                if not any(isinstance(x, Cons) for x in drivers):
                    raise Unsupported('empty iterate')
        except Finish as fi:
            if fi.ctx is not ctx:
                raise
        for x in fin:
            I.ev(x, e)
        return iter_result(ctx)
    except Return as r:
        if r.tag is tag:
            return r.value
        raise
    finally:
        I.iters.pop()


def scan_into(forms, e):
    for x in forms:
        if isinstance(x, Cons):
            try:
                l = items(x)
            except Cond:
                continue
            if S('into') in l and isinstance(l[0], Sym):
                v = l[l.index(S('into')) + 1]
                e.v.setdefault(v, 0 if l[0].name in ('sum', 'summing', 'count', 'counting') else None)
            scan_into(l, e)


def declare_vars(e, v):
    if isinstance(v, Sym):
        e.v.setdefault(v, None)
    elif isinstance(v, Cons):
        while isinstance(v, Cons):
            declare_vars(e, v.car)
            v = v.cdr
        declare_vars(e, v)


def destructure(e, v, x):
    if v is None or (isinstance(v, Sym) and v.name == 'nil'):
        return
    if isinstance(v, Sym):
        e.v[v] = x
        return
    if x is not None and not isinstance(x, Cons):
        raise lisp_error('type-error', 'destructuring %s' % show(x))
    destructure(e, v.car, x.car if x is not None else None)
    destructure(e, v.cdr, x.cdr if x is not None else None)


def iter_for(I, ctx, x, e):
    l = items(x.cdr)
    v = l[0]
    st = ctx.state
    k = id(x)
    kw = {}
    i = 1
    order = []
    while i < len(l):
        n = l[i].name.lstrip(':') if isinstance(l[i], Sym) else None
        if n is None:
            raise Unsupported('iterate clause')
        kw[n] = l[i + 1]
        order.append(n)
        i += 2
    d = order[0] if order else None
    if d == '=' or d == 'initially' or d == 'first':
        if d == '=' and 'then' not in kw:
            destructure(e, v, I.ev1(kw['='], e))
        else:
            first, then = (kw.get('first') or kw.get('initially') or kw.get('=')), kw.get('then')
            if k not in st:
                st[k] = 1
                destructure(e, v, I.ev1(first, e))
            else:
                destructure(e, v, I.ev1(then, e))
        return
    if d in ('in', 'on', 'in-vector', 'in-sequence', 'in-string', 'in-hashtable', 'index-of-vector', 'index-of-sequence'):
        if k not in st:
            o = I.ev1(kw[d], e)
            if d == 'on':
                out = []
                while isinstance(o, Cons):
                    out.append(o)
                    o = o.cdr
                st[k] = iter(out)
            elif d == 'in':
                st[k] = iter(items(o))
            elif d.startswith('index'):
                st[k] = iter(range(len(seq(o))))
            elif d == 'in-hashtable':
                st[k] = iter([lst(p) for p in o.pairs()])
            else:
                st[k] = iter(list(seq(o)))
            if 'by' in kw:
                raise Unsupported('iterate by')
        try:
            y = next(st[k])
        except StopIteration:
            raise Finish(ctx)
        destructure(e, v, y)
        return
    nums = {'from', 'upfrom', 'downfrom', 'to', 'downto', 'below', 'above', 'by'}
    if set(order) <= nums and order:
        if k not in st:
            a = kw.get('from', kw.get('upfrom', kw.get('downfrom')))
            st[k] = [I.ev1(a, e) if a is not None else 0, {n: I.ev1(kw[n], e) for n in order}]
            cur = st[k][0]
        else:
            step = st[k][1].get('by', 1)
            down = any(n in kw for n in ('downfrom', 'downto', 'above'))
            st[k][0] += -step if down else step
            cur = st[k][0]
        lim = st[k][1]
        for n, t in (('to', operator.gt), ('below', operator.ge), ('downto', operator.lt), ('above', operator.le)):
            if n in lim:
                num(lim[n])
                if t(cur, lim[n]):
                    raise Finish(ctx)
        destructure(e, v, cur)
        return
    raise Unsupported('iterate driver %s' % order)


def acc(I, f, env):
    """Context and target of an accumulation clause: value, into variable, keyword options."""
    l = items(f.cdr)
    opts = {}
    for i in range(1, len(l), 2):
        if not isinstance(l[i], Sym):
            raise Unsupported('iterate clause')
        opts[l[i].name.lstrip(':')] = l[i + 1]
    return I.iters[-1], I.ev1(l[0], env), opts


def put(I, ctx, opts, default, upd):
    into = opts.get('into')
    if into is None:
        ctx.value = upd(ctx.value if ctx.has else default)
        ctx.has = True
        return ctx.value
    cur = ctx.intos.get(into, default)
    ctx.intos[into] = r = upd(cur)
    ctx.env.v[into] = lst(r) if isinstance(r, Acc) else r
    return r


class Acc(list):
    pass


def iter_result(ctx):
    v = ctx.value if ctx.has else None
    if isinstance(v, Acc):
        if ctx.rtype is None or ctx.rtype.name == 'list':
            return lst(v)
        if ctx.rtype.name in ('vector', 'simple-vector'):
            return list(v)
        if ctx.rtype.name == 'string':
            return ''.join(c.c for c in v)
        raise Unsupported('result-type')
    if v is None and ctx.rtype is not None and ctx.rtype.name in ('vector', 'simple-vector'):
        return []
    return v


def result_type(I, ctx, opts, env):
    if 'result-type' in opts:
        ctx.rtype = I.ev1(opts['result-type'], env)


@iterop('collect', 'collecting')
def _(I, f, env):
    ctx, v, o = acc(I, f, env)
    result_type(I, ctx, o, env)
    at = o.get('at')
    if at is not None and at.name in ('start', 'beginning'):
        return put(I, ctx, o, Acc(), lambda c: Acc([v] + c))
    return put(I, ctx, o, Acc(), lambda c: Acc(c + [v])) if len(ctx.intos) else put(I, ctx, o, Acc(), lambda c: (c.append(v), c)[1])


@iterop('adjoining')
def _(I, f, env):
    ctx, v, o = acc(I, f, env)
    t = I.ev1(o['test'], env) if 'test' in o else None
    return put(I, ctx, o, Acc(), lambda c: c if any((eql(v, y) if t is None else I.fc(t, v, y) is not None) for y in c) else Acc(c + [v]))


@iterop('appending', 'append', 'nconcing', 'nconc')
def _(I, f, env):
    if f.car.name in ('append', 'nconc') and (f.cdr is None or (f.cdr.cdr is not None and not (isinstance(f.cdr.cdr.car, Sym) and f.cdr.cdr.car.name == 'into'))):
        return I.call(BUILTIN[S('append')], [I.ev1(x, env) for x in items(f.cdr)])
    if f.car.name in ('append', 'nconc'):
        return I.call(BUILTIN[S('append')], [I.ev1(x, env) for x in items(f.cdr)])
    ctx, v, o = acc(I, f, env)
    return put(I, ctx, o, Acc(), lambda c: Acc(c + items(v)))


@iterop('sum', 'summing')
def _(I, f, env):
    ctx, v, o = acc(I, f, env)
    num(v)
    return put(I, ctx, o, 0, lambda c: c + v)


@iterop('counting')
def _(I, f, env):
    ctx, v, o = acc(I, f, env)
    return put(I, ctx, o, 0, lambda c: c + (v is not None))


@iterop('maximize', 'maximizing')
def _(I, f, env):
    ctx, v, o = acc(I, f, env)
    return put(I, ctx, o, None, lambda c: v if c is None else max(c, v))


@iterop('minimize', 'minimizing')
def _(I, f, env):
    ctx, v, o = acc(I, f, env)
    return put(I, ctx, o, None, lambda c: v if c is None else min(c, v))


@iterop('while')
def _(I, f, env):
    if not I.truthy(f.cdr.car, env):
        raise Finish(I.iters[-1])


@iterop('until')
def _(I, f, env):
    if I.truthy(f.cdr.car, env):
        raise Finish(I.iters[-1])


@iterop('finish', 'terminate')
def _(I, f, env):
    raise Finish(I.iters[-1])


@iterop('next-iteration')
def _(I, f, env):
    raise NextIter(I.iters[-1])


@iterop('leave')
def _(I, f, env):
    ret(I, None, f.cdr.car if f.cdr is not None else None, I.iters[-1].env)


@iterop('finding')
def _(I, f, env):
    l = items(f.cdr)
    if len(l) > 2 and l[1].name.lstrip(':') == 'such-that':
        if I.truthy(l[2], env):
            ret(I, None, l[0], env)
        return None
    raise Unsupported('finding')


@iterop('always', 'never', 'thereis')
def _(I, f, env):
    v = I.ev1(f.cdr.car, env)
    ctx = I.iters[-1]
    n = f.car.name
    if n == 'thereis':
        if v is not None:
            raise Return(ctx.env.f[('block', None)], v)
        return None
    if (v is None) == (n == 'always'):
        raise Return(ctx.env.f[('block', None)], None)
    ctx.value, ctx.has = T, True


@iterop('else', 'first-iteration-p', 'after-each', 'reducing', 'multiply', 'unioning', 'generate', 'next', 'repeat')
def _(I, f, env):
    raise Unsupported('iterate ' + f.car.name)


# ------------------------------------------------------------------ loop
@special('loop')
def _(I, f, env):
    l = items(f.cdr)
    e = Env(env)
    tag = object()
    e.f[('block', None)] = tag
    saved, I.iters = I.iters, []
    try:
        if not l or isinstance(l[0], Cons):
            while True:
                I.progn(l, e)
        return Loop(I, l, e).run()
    except Return as r:
        if r.tag is tag:
            return r.value
        raise
    finally:
        I.iters = saved


class LoopEnd(Exception):
    pass


class Loop:
    def __init__(self, I, l, e):
        self.I, self.l, self.e, self.p = I, l, e, 0
        self.vals, self.acc, self.fin, self.ini = {}, None, [], []
        self.res = None

    def kw(self, *names):
        if self.p < len(self.l) and isinstance(self.l[self.p], Sym) and self.l[self.p].name.lstrip(':') in names:
            self.p += 1
            return self.l[self.p - 1].name.lstrip(':')
        return None

    def form(self):
        if self.p >= len(self.l):
            raise Unsupported('loop syntax')
        self.p += 1
        return self.l[self.p - 1]

    def run(self):
        I, e = self.I, self.e
        if self.kw('named'):
            raise Unsupported('loop named')
        fors, steps = [], []
        while self.p < len(self.l):
            if self.kw('for', 'as'):
                fors.append(self.for_clause())
                while self.kw('and'):
                    fors.append(self.for_clause())
            elif self.kw('with'):
                v = self.form()
                x = self.form() if self.kw('=') else None
                self.ini.append(lambda v=v, x=x: destructure(e, v, I.ev1(x, e)))
                while self.kw('and'):
                    v = self.form()
                    x = self.form() if self.kw('=') else None
                    self.ini.append(lambda v=v, x=x: destructure(e, v, I.ev1(x, e)))
            elif self.kw('repeat'):
                n = self.form()
                c = [None]

                def step(c=c, n=n):
                    if c[0] is None:
                        c[0] = I.ev1(n, e)
                    if c[0] <= 0:
                        raise LoopEnd()
                    c[0] -= 1
                fors.append(step)
            elif self.kw('initially'):
                while self.p < len(self.l) and isinstance(self.l[self.p], Cons):
                    x = self.form()
                    self.ini.append(lambda x=x: I.ev(x, e))
            elif self.kw('finally'):
                if self.kw('return'):
                    x = self.form()
                    self.fin.append(lst([S('return'), x]))
                else:
                    self.kw('do', 'doing')
                    while self.p < len(self.l) and isinstance(self.l[self.p], Cons):
                        self.fin.append(self.form())
            else:
                steps.append(self.clause())
        for x in self.ini:
            x()
        try:
            while True:
                for x in fors:
                    x()
                for x in steps:
                    x()
        except LoopEnd:
            pass
        for x in self.fin:
            I.ev(x, e)
        r = self.res
        return lst(r) if isinstance(r, Acc) else r

    def for_clause(self):
        I, e = self.I, self.e
        v = self.form()
        declare_vars(e, v)
        k = self.kw('in', 'on', 'across', '=', 'from', 'upfrom', 'downfrom', 'below', 'to', 'upto', 'downto', 'above', 'being')
        if k in ('in', 'on', 'across'):
            x = self.form()
            by = self.form() if self.kw('by') else None
            if by is not None:
                raise Unsupported('loop by')
            it = [None]

            def step():
                if it[0] is None:
                    o = I.ev1(x, e)
                    if k == 'in':
                        it[0] = iter(items(o))
                    elif k == 'across':
                        it[0] = iter(list(seq(o)))
                    else:
                        out = []
                        while isinstance(o, Cons):
                            out.append(o)
                            o = o.cdr
                        it[0] = iter(out)
                try:
                    y = next(it[0])
                except StopIteration:
                    raise LoopEnd()
                destructure(e, v, y)
            return step
        if k == '=':
            x = self.form()
            th = self.form() if self.kw('then') else x
            first = [True]

            def step():
                destructure(e, v, I.ev1(x if first[0] else th, e))
                first[0] = False
            return step
        if k is None or k == 'being':
            raise Unsupported('loop for')
        self.p -= 1
        opts = {}
        while True:
            n = self.kw('from', 'upfrom', 'downfrom', 'below', 'to', 'upto', 'downto', 'above', 'by')
            if n is None:
                break
            opts[n] = self.form()
        st = {}

        def step():
            if not st:
                st.update({n: I.ev1(x, e) for n, x in opts.items()})
                st['cur'] = st.get('from', st.get('upfrom', st.get('downfrom', 0)))
            else:
                d = st.get('by', 1)
                st['cur'] += -d if any(n in opts for n in ('downfrom', 'downto', 'above')) else d
            c = st['cur']
            for n, t in (('to', operator.gt), ('upto', operator.gt), ('below', operator.ge), ('downto', operator.lt), ('above', operator.le)):
                if n in st and t(c, num(st[n])):
                    raise LoopEnd()
            destructure(e, v, c)
        return step

    def clause(self):
        I, e = self.I, self.e
        k = self.kw('while', 'until', 'do', 'doing', 'collect', 'collecting', 'append', 'appending', 'nconc', 'nconcing', 'sum', 'summing', 'count', 'counting', 'maximize', 'maximizing', 'minimize', 'minimizing',
                    'when', 'if', 'unless', 'return', 'always', 'never', 'thereis')
        if k is None:
            raise Unsupported('loop clause %s' % show(self.l[self.p]))
        if k in ('do', 'doing'):
            fs = []
            while self.p < len(self.l) and isinstance(self.l[self.p], Cons):
                fs.append(self.form())
            return lambda: I.progn(fs, e)
        x = self.form()
        if k == 'while':
            def step():
                if not I.truthy(x, e):
                    raise LoopEnd()
            return step
        if k == 'until':
            def step():
                if I.truthy(x, e):
                    raise LoopEnd()
            return step
        if k == 'return':
            return lambda: ret(I, None, x, e)
        if k in ('when', 'if', 'unless'):
            th = [self.clause()]
            while self.kw('and'):
                th.append(self.clause())
            el = []
            if self.kw('else'):
                el.append(self.clause())
                while self.kw('and'):
                    el.append(self.clause())
            self.kw('end')

            def step():
                for s in (th if I.truthy(x, e) == (k != 'unless') else el):
                    s()
            return step
        if k in ('always', 'never', 'thereis'):
            def step():
                v = I.ev1(x, e)
                if k == 'thereis':
                    if v is not None:
                        raise Return(e.f[('block', None)], v)
                elif (v is None) == (k == 'always'):
                    raise Return(e.f[('block', None)], None)
                else:
                    self.res = T
            return step
        into = self.form() if self.kw('into') else None
        zero = Acc() if k[:4] in ('coll', 'appe', 'ncon') else 0 if k[:3] in ('sum', 'cou') else None
        if into is None:
            if self.res is None:
                self.res = zero
        else:
            e.v[into] = lst(zero) if isinstance(zero, Acc) else zero
            self.vals[into] = zero

        def upd(c, v):
            if k.startswith('collect'):
                c.append(v)
                return c
            if k[:4] in ('appe', 'ncon'):
                c.extend(items(v))
                return c
            if k.startswith('sum'):
                return c + num(v)
            if k.startswith('count'):
                return c + (v is not None)
            return v if c is None else (max if k.startswith('max') else min)(c, v)

        def step():
            v = I.ev1(x, e)
            if into is None:
                self.res = upd(self.res, v)
            else:
                self.vals[into] = r = upd(self.vals[into], v)
                e.v[into] = lst(r) if isinstance(r, Acc) else r
        return step


# ------------------------------------------------------------------ functions
def num(x):
    if not isinstance(x, (int, float, Fraction)):
        raise lisp_error('type-error', 'not a number: %s' % show(x))
    return x


def norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def eql(a, c):
    if a is c:
        return True
    if isinstance(a, (int, float, Fraction)) and isinstance(c, (int, float, Fraction)):
        return type(a) is type(c) and a == c
    if isinstance(a, Char):
        return a == c
    if type(a).__name__ == 'Ptr' and type(c).__name__ == 'Ptr':
        return a.a == c.a
    return False


def equal(a, c):
    while isinstance(a, Cons) and isinstance(c, Cons):
        if not equal(a.car, c.car):
            return False
        a, c = a.cdr, c.cdr
    if isinstance(a, str) and isinstance(c, str):
        return a == c
    return eql(a, c)


def equalp(a, c):
    while isinstance(a, Cons) and isinstance(c, Cons):
        if not equalp(a.car, c.car):
            return False
        a, c = a.cdr, c.cdr
    if isinstance(a, str) and isinstance(c, str):
        return a.lower() == c.lower()
    if isinstance(a, list) and isinstance(c, list):
        return len(a) == len(c) and all(equalp(x, y) for x, y in zip(a, c))
    if isinstance(a, (list, str)) and isinstance(c, (list, str)):
        return equalp(list(seq(a)), list(seq(c)))
    if isinstance(a, Char) and isinstance(c, Char):
        return a.c.lower() == c.c.lower()
    if isinstance(a, (int, float, Fraction)) and isinstance(c, (int, float, Fraction)):
        return a == c
    return eql(a, c)


fn('eq')(lambda a, c: b(eql(a, c)))      # small integers and characters are eq in practice
fn('eql')(lambda a, c: b(eql(a, c)))
fn('equal')(lambda a, c: b(equal(a, c)))
fn('equalp')(lambda a, c: b(equalp(a, c)))
fn('not', 'null')(lambda a: b(a is None))


def sname(x):
    if isinstance(x, str):
        return x
    if isinstance(x, Sym):
        return x.name.lstrip(':').upper()
    if x is None:
        return 'NIL'
    if isinstance(x, Char):
        return x.c
    raise lisp_error('type-error', 'not a string designator: %s' % show(x))


fn('string=')(lambda a, c: b(sname(a) == sname(c)))
fn('string/=')(lambda a, c: b(sname(a) != sname(c)))
fn('string-equal')(lambda a, c: b(sname(a).lower() == sname(c).lower()))
fn('string<')(lambda a, c: b(sname(a) < sname(c)))
fn('string>')(lambda a, c: b(sname(a) > sname(c)))
fn('string')(sname)
fn('symbol-name')(sname)
fn('string-downcase')(lambda a: sname(a).lower())
fn('string-upcase')(lambda a: sname(a).upper())
fn('make-keyword')(lambda a: S(':' + sname(a).lower()))
fn('intern')(lambda a, p=None: S((':' if p is S(':keyword') else '') + a.lower()))
fn('identity')(lambda a: a)
fn('constantly')(lambda a: (lambda *x: a))
fn('complement')(interp(lambda I, f: (lambda *x: b(I.fc(f, *x) is None))))
fn('curry')(interp(lambda I, f, *p: (lambda *x: I.call(I.designator(f), list(p) + list(x)))))
fn('rcurry')(interp(lambda I, f, *p: (lambda *x: I.call(I.designator(f), list(x) + list(p)))))


@fn('compose')
@interp
def _(I, *fs):
    def comp(*a):
        r = I.call(I.designator(fs[-1]), list(a))
        for g in reversed(fs[:-1]):
            r = I.call(I.designator(g), [one(r)])
        return r
    return comp


@fn('conjoin')
@interp
def _(I, *fs):
    return lambda *a: b(all(I.fc(f, *a) is not None for f in fs))


@fn('disjoin')
@interp
def _(I, *fs):
    return lambda *a: b(any(I.fc(f, *a) is not None for f in fs))


def arith(name, f, unit):
    def g(*a):
        for x in a:
            num(x)
        if not a:
            return unit
        if len(a) == 1 and name in '-/':
            return norm(-a[0] if name == '-' else Fraction(1) / a[0] if not isinstance(a[0], float) else 1 / a[0])
        r = a[0]
        for x in a[1:]:
            sg = isinstance(r, Single) and not (isinstance(x, float) and not isinstance(x, Single)) or isinstance(x, Single) and not (isinstance(r, float) and not isinstance(r, Single))
            if name == '/' and isinstance(r, int) and isinstance(x, int):
                r = Fraction(r, x)
            else:
                r = f(r, x)
            if sg:
                r = Single(r)
        return norm(r)
    BUILTIN[S(name)] = g


arith('+', operator.add, 0)
arith('-', operator.sub, 0)
arith('*', operator.mul, 1)
arith('/', operator.truediv, 1)


def comp(name, f):
    def g(*a):
        for x in a:
            num(x)
        return b(all(f(x, y) for x, y in zip(a, a[1:])))
    BUILTIN[S(name)] = g


for n_, f_ in (('<', operator.lt), ('>', operator.gt), ('<=', operator.le), ('>=', operator.ge), ('=', operator.eq)):
    comp(n_, f_)
fn('/=')(lambda *a: b(len(set(num(x) for x in a)) == len(a)))
fn('1+')(lambda a: num(a) + 1)
fn('1-')(lambda a: num(a) - 1)
fn('abs')(lambda a: abs(num(a)))
fn('min')(lambda *a: min(num(x) for x in a))
fn('max')(lambda *a: max(num(x) for x in a))
fn('expt')(lambda a, c: a ** c)
fn('mod')(lambda a, c: a % c)
fn('rem')(lambda a, c: int(math.fmod(a, c)) if abs(a) < 2**50 else (abs(a) % abs(c)) * (1 if a >= 0 else -1))
fn('floor')(lambda a, c=1: MV([a // c if isinstance(a, int) and isinstance(c, int) else math.floor(Fraction(a) / Fraction(c)), a % c]))
fn('truncate')(lambda a, c=1: MV([int(Fraction(a) / Fraction(c)), 0]))
fn('ceiling')(lambda a, c=1: MV([-(-a // c), 0]))
fn('round')(lambda a, c=1: MV([round(Fraction(a) / Fraction(c)), 0]))


def integer(x):
    if not isinstance(x, int):
        raise lisp_error('type-error', 'not an integer: %s' % show(x))
    return x


fn('ash')(lambda a, n: integer(a) << n if integer(n) >= 0 else integer(a) >> -n)
fn('logand')(lambda *a: functools.reduce(operator.and_, map(integer, a), -1))
fn('logior')(lambda *a: functools.reduce(operator.or_, map(integer, a), 0))
fn('logxor')(lambda *a: functools.reduce(operator.xor, map(integer, a), 0))
fn('lognot')(lambda a: ~integer(a))
fn('logbitp')(lambda i, a: b(integer(a) >> i & 1))
fn('logtest')(lambda a, c: b(integer(a) & integer(c)))
fn('logcount')(lambda a: bin(integer(a)).count('1'))
fn('integer-length')(lambda a: integer(a).bit_length() if a >= 0 else (~a).bit_length())
fn('byte')(lambda s, p: (s, p))
fn('ldb')(lambda bs, a: integer(a) >> bs[1] & ((1 << bs[0]) - 1))
fn('mask-field')(lambda bs, a: integer(a) & (((1 << bs[0]) - 1) << bs[1]))
fn('dpb')(lambda v, bs, a: (integer(a) & ~(((1 << bs[0]) - 1) << bs[1])) | ((v & ((1 << bs[0]) - 1)) << bs[1]))
fn('zerop')(lambda a: b(num(a) == 0))
fn('plusp')(lambda a: b(num(a) > 0))
fn('minusp')(lambda a: b(num(a) < 0))
fn('evenp')(lambda a: b(integer(a) % 2 == 0))
fn('oddp')(lambda a: b(integer(a) % 2))
fn('numberp', 'realp')(lambda a: b(isinstance(a, (int, float, Fraction))))
fn('integerp')(lambda a: b(isinstance(a, int)))
fn('floatp')(lambda a: b(isinstance(a, float)))
fn('rationalp')(lambda a: b(isinstance(a, (int, Fraction))))
fn('stringp')(lambda a: b(isinstance(a, str)))
fn('symbolp')(lambda a: b(a is None or isinstance(a, Sym)))
fn('keywordp')(lambda a: b(isinstance(a, Sym) and a.name.startswith(':')))
fn('consp')(lambda a: b(isinstance(a, Cons)))
fn('listp')(lambda a: b(a is None or isinstance(a, Cons)))
fn('atom')(lambda a: b(not isinstance(a, Cons)))
fn('vectorp', 'arrayp')(lambda a: b(isinstance(a, (list, str))))
fn('functionp')(lambda a: b(callable(a)))
fn('characterp')(lambda a: b(isinstance(a, Char)))
fn('positive-integer-p')(lambda a: b(isinstance(a, int) and a > 0))
fn('negative-integer-p')(lambda a: b(isinstance(a, int) and a < 0))
fn('non-negative-integer-p')(lambda a: b(isinstance(a, int) and a >= 0))
fn('positive-real-p')(lambda a: b(isinstance(a, (int, float, Fraction)) and a > 0))
fn('emptyp')(lambda a: b(len(seq(a)) == 0))
fn('single')(lambda a: b(len(seq(a)) == 1))
fn('typep')(interp(lambda I, x, t, e=None: b(typep(I, x, t))))
fn('values')(lambda *a: a[0] if len(a) == 1 else MV(list(a)))
fn('values-list')(lambda l: MV(items(l)))


def car(x):
    if x is None:
        return None
    if not isinstance(x, Cons):
        raise lisp_error('type-error', 'car of %s' % show(x))
    return x.car


def cdr(x):
    if x is None:
        return None
    if not isinstance(x, Cons):
        raise lisp_error('type-error', 'cdr of %s' % show(x))
    return x.cdr


fn('car', 'first')(car)
fn('cdr', 'rest')(cdr)
for name in ('caar', 'cadr', 'cdar', 'cddr', 'caddr', 'cdddr', 'cadddr', 'cdadr', 'caadr', 'cddar', 'cadar'):
    def mk(name=name):
        def g(x):
            for ch in reversed(name[1:-1]):
                x = car(x) if ch == 'a' else cdr(x)
            return x
        return g
    BUILTIN[S(name)] = mk()
BUILTIN[S('second')] = BUILTIN[S('cadr')]
BUILTIN[S('third')] = BUILTIN[S('caddr')]
BUILTIN[S('fourth')] = BUILTIN[S('cadddr')]
fn('cons')(lambda a, c: Cons(a, c))
fn('list')(lambda *a: lst(a))
fn('list*')(lambda *a: lst(a[:-1], a[-1]))
fn('vector')(lambda *a: list(a))


@fn('append', 'nconc')
def append(*ls):
    out = []
    for l in ls[:-1]:
        out += items(l)
    return lst(out, ls[-1]) if ls else None


@fn('nth')
def nth(n, l):
    integer(n)
    for _ in range(n):
        l = cdr(l)
    return car(l)


@fn('nthcdr')
def nthcdr(n, l):
    for _ in range(n):
        l = cdr(l)
    return l


@fn('elt', 'aref', 'svref', 'char')
def elt(s, i):
    integer(i)
    l = seq(s)
    if not 0 <= i < len(l):
        raise lisp_error('index-error', 'index %d of a sequence of %d' % (i, len(l)))
    return l[i]


@fn('last')
def last(l, n=1):
    x = items(l)
    for _ in range(max(0, len(x) - n)):
        l = l.cdr
    return l


fn('lastcar', 'last-elt')(lambda l: seq(l)[-1] if seq(l) else None)
fn('first-elt')(lambda l: seq(l)[0])
fn('butlast')(lambda l, n=1: lst(items(l)[:-n] if n else items(l)))
fn('length')(lambda s: len(seq(s)))
fn('list-length')(lambda s: len(items(s)))
fn('length=')(lambda *a: b(len(set(x if isinstance(x, int) else len(seq(x)) for x in a)) == 1))
fn('reverse', 'nreverse')(lambda s: like(s, list(reversed(seq(s)))))
fn('copy-list', 'copy-seq')(lambda s: like(s, list(seq(s))))
fn('copy-tree')(lambda s: copy_tree(s))
fn('copy-alist')(lambda s: lst(Cons(x.car, x.cdr) if isinstance(x, Cons) else x for x in items(s)))
fn('ensure-list')(lambda x: x if x is None or isinstance(x, Cons) else Cons(x, None))
fn('make-list')(lambda n, *k: lst([keys(list(k), 'initial-element').get('initial-element')] * n))


def copy_tree(x):
    return Cons(copy_tree(x.car), copy_tree(x.cdr)) if isinstance(x, Cons) else x


def keys(a, *allowed):
    kw = {}
    if len(a) % 2:
        raise lisp_error('program-error', 'odd number of keyword arguments')
    for i in range(0, len(a), 2):
        n = a[i].name.lstrip(':') if isinstance(a[i], Sym) else None
        if n not in allowed:
            raise Unsupported('keyword argument %s' % show(a[i]))
        kw.setdefault(n, a[i + 1])
    return kw


def kf(I, kw, x):
    return I.fc(kw['key'], x) if kw.get('key') is not None else x


def tst(I, kw, item, x):
    if kw.get('test-not') is not None:
        return I.fc(kw['test-not'], item, x) is None
    if kw.get('test') is not None:
        return I.fc(kw['test'], item, x) is not None
    return eql(item, x)


@fn('assoc')
@interp
def _(I, x, al, *k):
    kw = keys(list(k), 'test', 'key', 'test-not')
    for p in items(al):
        if p is not None and tst(I, kw, x, kf(I, kw, car(p))):
            return p
    return None


@fn('rassoc')
@interp
def _(I, x, al, *k):
    kw = keys(list(k), 'test', 'key')
    for p in items(al):
        if p is not None and tst(I, kw, x, kf(I, kw, cdr(p))):
            return p
    return None


@fn('assoc-value', 'aget')
@interp
def _(I, al, x, *k):
    if not (al is None or isinstance(al, Cons)) or (isinstance(x, Cons)):
        al, x = x, al
    kw = keys(list(k), 'test', 'key')
    for p in items(al):
        if p is not None and tst(I, kw, x, car(p)):
            return MV([p.cdr, p])
    return None


@fn('member')
@interp
def _(I, x, l, *k):
    kw = keys(list(k), 'test', 'key', 'test-not')
    while l is not None:
        if tst(I, kw, x, kf(I, kw, car(l))):
            return l
        l = l.cdr
    return None


@fn('position', 'find')
@interp
def _position(I, x, s, *k):
    raise Unsupported('position')


def pos(I, x, s, k, pred=None):
    kw = keys(list(k), 'test', 'key', 'test-not', 'from-end', 'start', 'end')
    l = list(enumerate(seq(s)))[kw.get('start') or 0:kw.get('end')]
    if kw.get('from-end') is not None:
        l = l[::-1]
    for i, y in l:
        z = kf(I, kw, y)
        if (I.fc(pred, z) is not None) if pred is not None else tst(I, kw, x, z):
            return i, y
    return None


def neg(I, p):
    return lambda x: b(I.fc(p, x) is None)


fn('position')(interp(lambda I, x, s, *k: (lambda r: r[0] if r else None)(pos(I, x, s, k))))
fn('find')(interp(lambda I, x, s, *k: (lambda r: r[1] if r else None)(pos(I, x, s, k))))
fn('position-if')(interp(lambda I, p, s, *k: (lambda r: r[0] if r else None)(pos(I, None, s, k, p))))
fn('find-if')(interp(lambda I, p, s, *k: (lambda r: r[1] if r else None)(pos(I, None, s, k, p))))
fn('position-if-not')(interp(lambda I, p, s, *k: (lambda r: r[0] if r else None)(pos(I, None, s, k, neg(I, p)))))
fn('find-if-not')(interp(lambda I, p, s, *k: (lambda r: r[1] if r else None)(pos(I, None, s, k, neg(I, p)))))


def removing(I, s, keep, k):
    kw = keys(list(k), 'test', 'key', 'test-not', 'count', 'start', 'end', 'from-end')
    if any(kw.get(x) is not None for x in ('count', 'start', 'end')):
        raise Unsupported('remove with bounds')
    return like(s, [y for y in seq(s) if keep(kw, kf(I, kw, y))])


fn('remove-if', 'delete-if')(interp(lambda I, p, s, *k: removing(I, s, lambda kw, z: I.fc(p, z) is None, k)))
fn('remove-if-not', 'delete-if-not', 'filter', 'keep-if')(interp(lambda I, p, s, *k: removing(I, s, lambda kw, z: I.fc(p, z) is not None, k)))
fn('remove', 'delete')(interp(lambda I, x, s, *k: removing(I, s, lambda kw, z: not tst(I, kw, x, z), k)))
fn('keep')(interp(lambda I, x, s, *k: removing(I, s, lambda kw, z: tst(I, kw, x, z), k)))
fn('count')(interp(lambda I, x, s, *k: (lambda kw: sum(1 for y in seq(s) if tst(I, kw, x, kf(I, kw, y))))(keys(list(k), 'test', 'key'))))
fn('count-if')(interp(lambda I, p, s, *k: (lambda kw: sum(1 for y in seq(s) if I.fc(p, kf(I, kw, y)) is not None))(keys(list(k), 'key'))))
fn('count-if-not')(interp(lambda I, p, s, *k: (lambda kw: sum(1 for y in seq(s) if I.fc(p, kf(I, kw, y)) is None))(keys(list(k), 'key'))))


def hkey(t, x):
    """A hashable key for the standard tests, or None."""
    n = t
    if n == 'eql':
        if isinstance(x, (int, float, Fraction)):
            return (type(x).__name__, x) if x == x else None
        if isinstance(x, Char):
            return ('c', x.c)
        return ('i', id(x))
    if n == 'string=':
        return sname(x)
    if n == 'equal' or n == 'equalp':
        if isinstance(x, Cons):
            out = []
            while isinstance(x, Cons):
                k = hkey(n, x.car)
                if k is None:
                    return None
                out.append(k)
                x = x.cdr
            return ('l', tuple(out), hkey(n, x))
        if isinstance(x, str):
            return ('s', x.lower() if n == 'equalp' else x)
        if n == 'equalp':
            if isinstance(x, (int, float, Fraction)):
                return ('n', x) if x == x else None
            if isinstance(x, list):
                return None
        return hkey('eql', x)
    return None


def std_test(I, f):
    if f is None:
        return 'eql'
    for n in ('eq', 'eql', 'equal', 'equalp', 'string='):
        if f is S(n) or f is BUILTIN[S(n)]:
            return 'eql' if n == 'eq' else n
    return None


@fn('remove-duplicates', 'delete-duplicates', 'nub')
@interp
def _(I, s, *k):
    kw = keys(list(k), 'test', 'key', 'from-end', 'test-not')
    l = seq(s)
    ks = [kf(I, kw, x) for x in l]
    t = std_test(I, kw.get('test')) if kw.get('test-not') is None else None
    hk = [hkey(t, x) for x in ks] if t else [None] * len(ks)
    keep = []
    if t and None not in hk:
        seen = set()
        rng = range(len(l)) if kw.get('from-end') is not None else range(len(l) - 1, -1, -1)
        for i in rng:
            if hk[i] not in seen:
                seen.add(hk[i])
                keep.append(i)
        keep.sort()
        return like(s, [l[i] for i in keep])
    for i in range(len(l)):
        if kw.get('from-end') is not None:
            dup = any(tst(I, kw, ks[j], ks[i]) for j in range(i))
        else:
            dup = any(tst(I, kw, ks[i], ks[j]) for j in range(i + 1, len(l)))
        if not dup:
            keep.append(i)
    return like(s, [l[i] for i in keep])


@fn('mapcar')
@interp
def mapcar(I, f, *ls):
    f = I.designator(f)
    return lst([one(I.call(f, list(a))) for a in zip(*[items(l) for l in ls])])


@fn('mapc', 'mapl')
@interp
def _(I, f, *ls):
    mapcar(I, f, *ls)
    return ls[0]


@fn('mapcan', 'mappend')
@interp
def _(I, f, *ls):
    return lst([y for x in items(mapcar(I, f, *ls)) for y in items(x)])


@fn('map')
@interp
def _(I, t, f, *ss):
    f = I.designator(f)
    out = [one(I.call(f, list(a))) for a in zip(*[seq(s) for s in ss])]
    return to_type(t, out)


def to_type(t, out):
    if t is None:
        return None
    n = t.car.name if isinstance(t, Cons) else t.name
    if n == 'list':
        return lst(out)
    if n in ('vector', 'simple-vector', 'array', 'simple-array'):
        return list(out)
    if n in ('string', 'simple-string'):
        return ''.join(c.c for c in out)
    raise Unsupported('sequence type ' + n)


@fn('coerce')
@interp
def _(I, x, t):
    n = t.car.name if isinstance(t, Cons) else t.name
    if n in ('double-float', 'long-float'):
        return float(num(x))
    if n in ('float', 'single-float'):
        return Single(num(x)) if not isinstance(x, float) else x if n == 'float' else Single(x)
    if n in ('list', 'vector', 'simple-vector', 'string', 'array', 'simple-array'):
        if n == 'string' and isinstance(x, str) or n in ('vector', 'array') and isinstance(x, list):
            return x
        return to_type(t, seq(x))
    if n == 'function':
        return I.designator(x)
    if n in ('integer', 'rational', 't'):
        return x
    raise Unsupported('coerce to ' + n)


fn('concatenate')(lambda t, *ss: to_type(t, [y for s in ss for y in seq(s)]))
fn('string-append', 'string+', 'strcat')(lambda *a: ''.join(sname(x) for x in a))
fn('some')(interp(lambda I, f, *ss: next((r for r in (I.fc(f, *a) for a in zip(*[seq(s) for s in ss])) if r is not None), None)))
fn('every')(interp(lambda I, f, *ss: b(all(I.fc(f, *a) is not None for a in zip(*[seq(s) for s in ss])))))
fn('notany')(interp(lambda I, f, *ss: b(not any(I.fc(f, *a) is not None for a in zip(*[seq(s) for s in ss])))))
fn('notevery')(interp(lambda I, f, *ss: b(not all(I.fc(f, *a) is not None for a in zip(*[seq(s) for s in ss])))))


@fn('reduce')
@interp
def _(I, f, s, *k):
    kw = keys(list(k), 'initial-value', 'key', 'from-end')
    l = [kf(I, kw, x) for x in seq(s)]
    if kw.get('from-end') is not None:
        l = l[::-1]
    if 'initial-value' in kw:
        l = [kw['initial-value']] + l
    if not l:
        return I.fc(f)
    r = l[0]
    for x in l[1:]:
        r = I.fc(f, x, r) if kw.get('from-end') is not None else I.fc(f, r, x)
    return r


@fn('sort', 'stable-sort')
@interp
def _(I, s, p, *k):
    kw = keys(list(k), 'key')
    l = list(seq(s))

    def c(x, y):
        if I.fc(p, kf(I, kw, x), kf(I, kw, y)) is not None:
            return -1
        if I.fc(p, kf(I, kw, y), kf(I, kw, x)) is not None:
            return 1
        return 0
    return like(s, sorted(l, key=functools.cmp_to_key(c)))


@fn('subseq')
def _(s, a, e=None):
    l = seq(s)
    if a > len(l) or (e is not None and e > len(l)):
        raise lisp_error('index-error', 'bounds of subseq')
    return like(s, l[a:e])


fn('take')(lambda n, s: like(s, seq(s)[:n]))
fn('drop')(lambda n, s: like(s, seq(s)[n:]))
fn('iota')(lambda n, *k: (lambda kw: lst(range(kw.get('start', 0), kw.get('start', 0) + n * kw.get('step', 1), kw.get('step', 1))))(keys(list(k), 'start', 'step')))
fn('range')(lambda a, e=None, s=1: list(range(0, a, s)) if e is None else list(range(a, e, s)))


@fn('set-difference', 'union', 'intersection', 'adjoin')
@interp
def _(I, *a):
    raise Unsupported('set operation')


fn('set-difference')(interp(lambda I, a, c, *k: (lambda kw: lst([x for x in items(a) if not any(tst(I, kw, kf(I, kw, x), kf(I, kw, y)) for y in items(c))]))(keys(list(k), 'test', 'key'))))
fn('intersection')(interp(lambda I, a, c, *k: (lambda kw: lst([x for x in items(a) if any(tst(I, kw, kf(I, kw, x), kf(I, kw, y)) for y in items(c))]))(keys(list(k), 'test', 'key'))))
fn('adjoin')(interp(lambda I, x, l, *k: (lambda kw: l if any(tst(I, kw, kf(I, kw, x), kf(I, kw, y)) for y in items(l)) else Cons(x, l))(keys(list(k), 'test', 'key'))))
fn('funcall')(interp(lambda I, f, *a: I.call(I.designator(f), list(a))))
fn('apply')(interp(lambda I, f, *a: I.call(I.designator(f), list(a[:-1]) + items(a[-1]))))
fn('getf', 'plist-get')(lambda p, k, d=None: getf(p, k, d))
fn('slot-value')(lambda o, s: slot_value(o, s))
fn('slot-boundp')(lambda o, s: b(s in o.slots))
fn('class-of')(lambda o: o.cls)
fn('class-name')(lambda o: S(o.name))
fn('find-class')(interp(lambda I, s, *a: I.classes.get(s)))
fn('gensym')(lambda *a: Sym('g%d' % _random.randrange(10 ** 9)))
fn('symbol-value')(interp(lambda I, s: I.g.v[s]))
fn('random')(interp(lambda I, n, *s: I.rng.randrange(n) if isinstance(n, int) else I.rng.random() * n))
fn('random-elt')(interp(lambda I, s, *a: I.rng.choice(seq(s)) if seq(s) else (_ for _ in ()).throw(lisp_error('type-error', 'random-elt of an empty sequence'))))
fn('namestring', 'pathname', 'native-namestring')(lambda x: x)


def getf(p, k, d=None):
    if isinstance(p, Sym):      # plist-get takes the key first
        p, k = k, p
    l = items(p)
    for i in range(0, len(l) - 1, 2):
        if eql(l[i], k):
            return l[i + 1]
    return d


@fn('error')
@interp
def _(I, d, *a):
    if isinstance(d, Cond):
        raise d
    if isinstance(d, Sym):
        raise lisp_error(d.name, ' '.join(show(x) for x in a))
    raise lisp_error('simple-error', show(d) + ' ' + ' '.join(show(x)[:80] for x in a))


fn('warn', 'signal', 'note')(lambda *a: None)


@fn('make-instance', 'make')
@interp
def make_instance(I, c, *args):
    if isinstance(c, Sym):
        k = I.classes.get(c)
        if k is None:
            raise Unsupported('class %s' % show(c))
        c = k
    o = Inst(c)
    if len(args) % 2:
        raise lisp_error('program-error', 'initialization arguments')
    kv = {}
    for i in range(0, len(args), 2):
        kv.setdefault(args[i], args[i + 1])
    used = set()
    for cl in c.mro():
        for d in cl.slots:
            for k in d['initargs']:
                if k in kv:
                    used.add(k)
                    o.slots.setdefault(d['name'], kv[k])
    for k in kv:
        if k not in used and k.name != ':allow-other-keys':
            raise lisp_error('program-error', 'initialization argument %s of %s' % (show(k), c.name))
    for cl in c.mro():
        for d in cl.slots:
            if d['has'] and d['name'] not in o.slots:
                o.slots[d['name']] = I.ev1(d['initform'], I.g)
    I.call(I.g.f[S('initialize-instance')], [o] + list(args))
    return o


class Hash:
    def __init__(self, test='eql'):
        self.t, self.d = test, {}

    def put(self, k, v):
        h = hkey(self.t, k)
        if h is None:
            raise Unsupported('hash key')
        self.d[h] = (k, v)

    def pairs(self):
        return list(self.d.values())


@fn('make-hash-table')
@interp
def _(I, *k):
    kw = keys(list(k), 'test', 'size')
    t = std_test(I, kw.get('test')) if 'test' in kw else 'eql'
    if t is None:
        raise Unsupported('hash table test')
    return Hash(t)


@fn('gethash')
def _(k, h, d=None):
    x = h.d.get(hkey(h.t, k))
    return MV([x[1], T]) if x else MV([d, None])


@fn('remhash')
def _(k, h):
    return b(h.d.pop(hkey(h.t, k), None) is not None)


fn('hash-table-count')(lambda h: len(h.d))
fn('hash-table-keys')(lambda h: lst(k for k, v in h.pairs()))
fn('hash-table-values')(lambda h: lst(v for k, v in h.pairs()))
fn('hash-table-alist')(lambda h: lst(Cons(k, v) for k, v in h.pairs()))
fn('clrhash')(lambda h: (h.d.clear(), h)[1])
fn('maphash')(interp(lambda I, f, h: [I.fc(f, k, v) for k, v in h.pairs()] and None))


@fn('make-array')
@interp
def _(I, n, *k):
    kw = keys(list(k), 'initial-contents', 'initial-element', 'element-type', 'adjustable', 'fill-pointer')
    if isinstance(n, Cons):
        if n.cdr is not None:
            raise Unsupported('multidimensional array')
        n = n.car
    if kw.get('fill-pointer') is not None:
        raise Unsupported('fill pointer')
    if 'initial-contents' in kw:
        l = list(seq(kw['initial-contents']))
        if len(l) != n:
            raise lisp_error('simple-error', 'initial contents of %d elements for an array of %s' % (len(l), show(n)))
        return l
    return [kw.get('initial-element')] * n


def cartesian_without_duplicates(I, lists, *k):
    """software-evolution-library: products without the same element twice."""
    kw = keys(list(k), 'test')
    out = [[]]
    for l in items(lists):
        out = [p + [x] for p in out for x in items(l) if not any(tst(I, kw, x, y) for y in p)]
    return lst(lst(p) for p in out)


fn('cartesian-without-duplicates')(interp(cartesian_without_duplicates))


def cartesian(lists):
    out = [[]]
    for l in items(lists):
        out = [p + [x] for p in out for x in items(l)]
    return lst(lst(p) for p in out)


fn('cartesian')(cartesian)


@fn('format', 'fmt')
def _(*a):
    return 'formatted'
