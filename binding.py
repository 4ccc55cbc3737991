"""The foreign interface as the Lisp sources declare it, as ctypes types."""
import ctypes as C
import lispread
from lispread import LispError

BASE = {':uint8': C.c_uint8, ':int8': C.c_int8, ':uint16': C.c_uint16, ':int16': C.c_int16, ':uint32': C.c_uint32, ':int32': C.c_int32, ':uint64': C.c_uint64, ':int64': C.c_int64, ':int': C.c_int, ':unsigned-int': C.c_uint, ':uint': C.c_uint,
        ':long': C.c_long, ':unsigned-long': C.c_ulong, ':ulong': C.c_ulong, ':size': C.c_size_t, ':char': C.c_int8, ':unsigned-char': C.c_uint8, ':uchar': C.c_uint8, ':short': C.c_int16, ':unsigned-short': C.c_uint16, ':float': C.c_float, ':double': C.c_double, ':bool': C.c_int,
        ':pointer': C.c_void_p, ':string': C.c_void_p, ':llong': C.c_int64, ':ullong': C.c_uint64, ':long-long': C.c_int64, ':unsigned-long-long': C.c_uint64, ':void': None}
DESC = {C.c_uint8: 'u1', C.c_int8: 'i1', C.c_uint16: 'u2', C.c_int16: 'i2', C.c_uint32: 'u4', C.c_int32: 'i4', C.c_uint64: 'u8', C.c_int64: 'i8', C.c_float: 'f4', C.c_double: 'f8', C.c_void_p: 'ptr', None: 'void'}


class Binding:
    def __init__(self, repo):
        self.src = lispread.Source(repo)
        self.enums, self.structs, self.funcs, self.typedefs, self.fieldtypes = {}, {}, {}, {}, {}
        for _, f in self.src.all:
            if f[0] == 'defctype':
                self.typedefs[f[1]] = f[2]
            elif f[0] == 'defcenum':
                name = f[1][0] if isinstance(f[1], list) else f[1]
                v, d = 0, {}
                for x in f[2:]:
                    if isinstance(x, tuple):
                        continue
                    if isinstance(x, list):
                        x, v = x[0], self.src.eval(x[1])
                    d[x] = v
                    v += 1
                self.enums[name] = d
            elif f[0] == 'defcstruct':
                name = f[1][0] if isinstance(f[1], list) else f[1]
                fl = [(str(x[0]).replace('-', '_'), self.type(x[1])) for x in f[2:] if isinstance(x, list)]
                self.structs[name] = type(str(name), (C.Structure,), {'_fields_': fl})
                self.fieldtypes[name] = [(str(x[0]), x[1]) for x in f[2:] if isinstance(x, list)]
            elif f[0] == 'defcfun':
                cn = f[1][0][1] if isinstance(f[1], list) and isinstance(f[1][0], tuple) else f[1][1][1] if isinstance(f[1], list) else f[1][1] if isinstance(f[1], tuple) else str(f[1]).replace('-', '_')
                self.funcs[cn] = (self.type(f[2]), [self.type(x[1]) for x in f[3:] if isinstance(x, list)], f[2], [x[1] for x in f[3:] if isinstance(x, list)])

    def type(self, t):
        if isinstance(t, list):
            if t[0] == ':pointer':
                return C.c_void_p
            if t[0] == ':struct':
                return self.structs[t[1]]
            if t[0] == ':string':       # with options on encoding and release
                return C.c_void_p
            raise LispError('unknown foreign type %s' % t)
        if t in BASE:
            return BASE[t]
        if t in self.enums:
            return C.c_int32
        if t in self.typedefs:
            return self.type(self.typedefs[t])
        raise LispError('unknown foreign type %s' % t)

    def desc(self, t):
        if not isinstance(t, list) and t in self.enums:
            return 'enum4'
        return DESC.get(self.type(t), 'other')

    def load(self, so):
        lib = C.CDLL(so)
        for n, (r, a, _, _) in self.funcs.items():
            try:
                f = getattr(lib, n)
            except AttributeError:
                raise LookupError('the library has no function %s' % n)
            f.restype, f.argtypes = r, a
        return lib

    def operators(self):
        """The mapping from operators in queries to predicate kinds."""
        for _, f in self.src.all:
            for z in lispread.walk(f):
                if z and z[0] == 'ecase':
                    d = {str(x[0]): str(x[1]) for x in z[2:] if isinstance(x, list) and len(x) == 2 and isinstance(x[1], str)}
                    if ':distinct-vars' in d and ':v/size' in d:
                        return d
        raise LispError('operators of queries not found')
