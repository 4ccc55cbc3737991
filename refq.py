"""Reference evaluation of predicates and their generator, shared by the drivers of the Lisp side."""
import operator, struct
from fractions import Fraction

TYPES = [(':unsigned', 1), (':unsigned', 2), (':unsigned', 4), (':unsigned', 8), (':signed', 1), (':signed', 2), (':signed', 4), (':signed', 8), (':float', 4), (':float', 8), (':pointer', 8), (':blob', 0), (':blob', 5)]
TAG = {':unsigned': 0, ':signed': 1, ':float': 2, ':pointer': 3, ':blob': 4}   # the file format


def value(v, k):
    if k == ':blob':
        return None
    if k == ':float':
        f = struct.unpack('<f' if len(v[2]) == 4 else '<d', v[2])[0]
        return Fraction(f)
    return Fraction(v[2])


def evaluate(e, bind):
    """bind: list of (var, format). None: undefined."""
    if isinstance(e, str):
        return 'xyzw'.index(e)
    if not isinstance(e, tuple):
        return Fraction(e)
    op, a = e[0], e[1:]
    if op == 'v/value':
        return value(*bind['xyzw'.index(a[0])])
    if op == 'v/size':
        v, k = bind['xyzw'.index(a[0])]
        return None if v[3] is None else Fraction(v[3])
    if op == 'distinct-vars':
        p, q = (bind['xyzw'.index(x)] for x in a)
        return p != q
    x = [evaluate(y, bind) for y in a]
    if op == 'and':
        return all(x)
    if op == 'or':
        return any(x)
    if op == 'not':
        return not x[0]
    if None in x:
        return False if op in ('>', '>=', '<', '<=', '=', 'equal') else None
    f = {'>': operator.gt, '>=': operator.ge, '<': operator.lt, '<=': operator.le, '=': operator.eq, 'equal': operator.eq, '+': operator.add, '-': operator.sub, '*': operator.mul, '/': lambda p, q: p / q if q else None}[op]
    return f(*x)


def gen_pred(r, consts, nv, depth):
    def num(d):
        k = r.random()
        if d and k < 0.4:
            return (r.choice('+-*'), num(d - 1), num(d - 1))
        if d and k < 0.45:
            return ('/', num(0), r.choice([2, -4, 0.5]))
        if k < 0.7:
            return ('v/value', 'xyzw'[r.randrange(nv)])
        if k < 0.8:
            return ('v/size', 'xyzw'[r.randrange(nv)])
        return r.choice(consts)

    def boo(d):
        k = r.random()
        if d and k < 0.5:
            op = r.choice(['and', 'or', 'not'])
            return (op,) + tuple(boo(d - 1) for _ in range(1 if op == 'not' else r.randint(0, 3)))
        if k > 0.9:
            return ('distinct-vars', 'xyzw'[r.randrange(nv)], 'xyzw'[r.randrange(nv)])
        return (r.choice(['>', '>=', '<', '<=', '=', 'equal']), num(1), num(1))
    return boo(depth)
