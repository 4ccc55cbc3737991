"""Just enough of a Lisp reader to take constants and foreign declarations out of the repository's Lisp sources.
Forms it does not understand are skipped."""
import glob, os, re


class Sym(str):
    pass


class LispError(Exception):
    pass


def skip_ws(s, i):
    n = len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif c == ';':
            while i < n and s[i] != '\n':
                i += 1
        elif s.startswith('#|', i):
            d, i = 1, i + 2
            while d and i < n:
                if s.startswith('#|', i):
                    d += 1
                    i += 2
                elif s.startswith('|#', i):
                    d -= 1
                    i += 2
                else:
                    i += 1
        else:
            return i
    return i


CLOSE = {'(': ')', '[': ']', '{': '}', '«': '»'}


def read(s, i=0):
    """Returns (form, end). Lists are Python lists, strings ('str', text), symbols Sym (lower case), numbers int."""
    i = skip_ws(s, i)
    if i >= len(s):
        raise LispError('end of text')
    c = s[i]
    if c in CLOSE:
        out = []
        i += 1
        while True:
            i = skip_ws(s, i)
            if i >= len(s):
                raise LispError('unclosed list')
            if s[i] == CLOSE[c]:
                if c != '(':
                    out = [Sym('%' + c)] + out
                return out, i + 1
            if s[i] in ')]}»':
                raise LispError('mismatched %s' % s[i])
            f, i = read(s, i)
            out.append(f)
    if c == '"':
        out = []
        i += 1
        while s[i] != '"':
            if s[i] == '\\':
                i += 1
            out.append(s[i])
            i += 1
        return ('str', ''.join(out)), i + 1
    if c == "'":
        f, i = read(s, i + 1)
        return [Sym('quote'), f], i
    if c == '`':
        f, i = read(s, i + 1)
        return [Sym('quasi'), f], i
    if c == ',':
        j = i + 2 if s[i + 1] in '@.' else i + 1
        f, j = read(s, j)
        return [Sym('unquote'), f], j
    if c == '#':
        d = s[i + 1]
        if d == "'":
            f, i = read(s, i + 2)
            return [Sym('function'), f], i
        if d == '\\':
            j = i + 3
            while j < len(s) and (s[j].isalnum() or s[j] in '-_'):
                j += 1
            return ('char', s[i + 2:j]), j
        if d in '+-':
            _, j = read(s, i + 2)
            return read(s, j)       # conditional form: taken
        if d in '.:pP':
            return read(s, i + 2)
        if d == '(':
            return read(s, i + 1)
        m = re.match(r'#([xXbBoO])([0-9a-fA-F]+)', s[i:])
        if m:
            return int(m.group(2), {'x': 16, 'b': 2, 'o': 8}[m.group(1).lower()]), i + m.end()
        raise LispError('reader macro #%s' % d)
    if c == '|':
        j = s.index('|', i + 1)
        return Sym(s[i + 1:j]), j + 1
    j = i
    while j < len(s) and not s[j].isspace() and s[j] not in '()[]{}«»"\';`,':
        j += 1
    if j == i:
        raise LispError('unexpected %r' % c)
    t = s[i:j]
    if re.fullmatch(r'[-+]?\d+\.?', t):
        return int(t.rstrip('.')), j
    return Sym(t.lower()), j


def forms(text):
    """Top-level forms: those starting with a parenthesis in the first column (robust against forms that cannot be read)."""
    for m in re.finditer(r'^\(', text, re.M):
        try:
            yield read(text, m.start())[0]
        except (LispError, IndexError, ValueError, RecursionError):
            continue


def walk(f):
    if isinstance(f, list):
        yield f
        for x in f:
            yield from walk(x)


class Source:
    def __init__(self, repo):
        self.files = sorted(f for f in glob.glob(repo + '/*.lisp') + glob.glob(repo + '/instrumentation/*.lisp') + glob.glob(repo + '/cffi-interface/*.lisp') if os.path.isfile(f))
        self.all = []
        self.const = {}
        for f in self.files:
            with open(f, encoding='utf-8') as h:
                t = h.read()
            for x in forms(t):
                for y in ([x] if not (x and x[0] in ('eval-when', 'progn')) else [x] + [z for z in x if isinstance(z, list)]):
                    if not y or not isinstance(y[0], Sym):
                        continue
                    self.all.append((f, y))
                    if y[0] in ('defconst', 'defvar', 'defparameter', 'defconstant', 'define-constant') and len(y) > 2 and isinstance(y[1], Sym):
                        self.const[y[1]] = y[2]

    def eval(self, f, env=None, depth=0):
        """Value of a constant expression: strings, integers, names of other constants."""
        if depth > 60:
            raise LispError('too deep')
        ev = lambda x: self.eval(x, env, depth + 1)
        if isinstance(f, tuple):
            return f[1]
        if isinstance(f, int):
            return f
        if isinstance(f, Sym):
            if env and f in env:
                return env[f]
            if f.startswith(':'):
                return f
            if f == 'nil':
                return None
            if f in self.const:
                return ev(self.const[f])
            raise LispError('unknown name ' + f)
        op = f[0]
        if op == 'quote':
            return f[1] if not isinstance(f[1], tuple) else f[1][1]
        if op in ('concatenate',):
            return ''.join(ev(x) for x in f[2:])
        if op in ('string-append', 'string+', 'strcat', 'str:concat', 'uiop:strcat', 'concat'):
            return ''.join(ev(x) for x in f[1:])
        if op in ('fmt',):
            return self.format(ev(f[1]), [ev(x) for x in f[2:]])
        if op == 'format':
            return self.format(ev(f[2]), [ev(x) for x in f[3:]])
        if op in ('list',):
            return [ev(x) for x in f[1:]]
        if op == 'ash':
            a, b = ev(f[1]), ev(f[2])
            return a << b if b >= 0 else a >> -b
        if op == '1-':
            return ev(f[1]) - 1
        if op == '1+':
            return ev(f[1]) + 1
        if op in ('+', '-', '*'):
            v = [ev(x) for x in f[1:]]
            r = v[0]
            for x in v[1:]:
                r = r + x if op == '+' else r - x if op == '-' else r * x
            return r
        raise LispError('cannot evaluate (%s ...)' % op)

    def format(self, tmpl, args):
        args = list(args)

        def sub(m):
            d = m.group(1).lower()
            if d == '~':
                return '~'
            if d == '%':
                return '\n'
            if d == '\n':
                return ''
            v = args.pop(0)
            if d == 's' and isinstance(v, str) and not isinstance(v, Sym):
                return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
            return str(v)
        r = re.sub(r'~(\n\s*|[aAdDsS~%])', sub, tmpl)
        return r

    def constant(self, name):
        if name not in self.const:
            raise LispError('no constant ' + name)
        return self.eval(self.const[name])
