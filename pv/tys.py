"""Rust type strings (as printed in MIR) -> Ty objects."""
import re
from functools import lru_cache

INTS = {
    'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1),
    'i64': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1), 'isize': (-2**63, 2**63-1),
    'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1),
    'u64': (0, 2**64-1), 'u128': (0, 2**128-1), 'usize': (0, 2**64-1),
    'char': (0, 0x10ffff),
}


class Ty:
    """kind: adt | ref | ptr | tuple | array | slice | closure | fndef | fnptr | dyn | never | proj | infer"""
    __slots__ = ('kind', 'name', 'args', 'extra', '_s', '_h')

    def __init__(self, kind, name='', args=(), extra=None):
        self.kind = kind
        self.name = name
        self.args = tuple(args)
        self.extra = extra
        self._s = None
        self._h = None

    def __str__(self):
        if self._s is None:
            self._s = self._fmt()
        return self._s

    def _fmt(self):
        k = self.kind
        a = ', '.join(map(str, self.args))
        if k == 'adt':
            return self.name + (f'<{a}>' if self.args else '')
        if k == 'ref':
            return ('&mut ' if self.extra else '&') + str(self.args[0])
        if k == 'ptr':
            return f'*{self.extra} ' + str(self.args[0])
        if k == 'tuple':
            return '(' + a + (',' if len(self.args) == 1 else '') + ')'
        if k == 'array':
            return f'[{a}; {self.extra}]'
        if k == 'slice':
            return f'[{a}]'
        if k == 'dyn':
            return 'dyn ' + self.name
        if k == 'never':
            return '!'
        return f'{k}:{self.name}' + (f'<{a}>' if self.args else '')

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Ty) and str(self) == str(o)

    def __hash__(self):
        if self._h is None:
            self._h = hash(str(self))
        return self._h

    @property
    def last(self):
        return self.name.rsplit('::', 1)[-1]

    def is_int(self):
        return self.kind == 'adt' and self.name in INTS

    def is_bool(self):
        return self.kind == 'adt' and self.name == 'bool'

    def is_ref(self):
        return self.kind in ('ref', 'ptr')

    def is_unit(self):
        return self.kind == 'tuple' and not self.args

    def adt(self, *names):
        return self.kind == 'adt' and (self.name in names or self.last in names)

    def strip(self):
        t = self
        while t.kind in ('ref', 'ptr'):
            t = t.args[0]
        return t


UNIT = Ty('tuple')
NEVER = Ty('never')

CRATE_MODS = set('agent argv environ err err_pipe fd fdio http net procinfo procs proto res shutdown sig spec state string sys main'.split())

# External paths whose last segment is ambiguous: keep two segments.
KEEP2 = {'Error', 'Result', 'Iter', 'IntoIter', 'IterMut', 'Receiver', 'Sender', 'State', 'Value', 'Keys', 'Values',
         'Entry', 'Drain', 'Child', 'Signal', 'SignalKind', 'Builder', 'Response', 'Request', 'Instant', 'Duration',
         'Split', 'Chars'}
ALIASES = {
    'std::result::Result': 'Result',
    'core::result::Result': 'Result',
}


def canon_path(p):
    """Canonical name: crate paths keep their module; external ones their last segment(s)."""
    p = p.strip()
    if p.startswith('crate::'):
        p = p[7:]
    if p.startswith('procstar::'):
        p = p[10:]
    if p in ALIASES:
        return ALIASES[p]
    segs = p.split('::')
    if 'libc' in segs and segs[-1] in ('rusage', 'timeval', 'stat', 'timespec'):      # named through a module's `extern crate libc`
        return segs[-1]
    if segs[0] in CRATE_MODS and not (segs[0] == 'http' and len(segs) > 1 and segs[1] in HTTP_EXT):
        return p
    last = segs[-1]
    if len(segs) == 1:
        return last
    if last in KEEP2:
        return segs[-2] + '::' + last
    return last


# the crate has a module `http` and so does the ecosystem
HTTP_EXT = {'Request', 'Response', 'StatusCode', 'HeaderValue', 'Method', 'request', 'response', 'header', 'status',
            'method', 'uri', 'Uri', 'HeaderMap', 'HeaderName', 'Error', 'Result_', 'Version', 'Extensions',
            'extensions', 'error', 'version', 'convert', 'byte_str'}


class TyParser:
    def __init__(self, s):
        self.s = s
        self.i = 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] == ' ':
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if self.peek(t):
            self.i += len(t)
            return True
        return False

    def expect(self, t):
        if not self.eat(t):
            raise ValueError(f'type parse: expected {t!r} at {self.i} in {self.s!r}')

    def ident(self):
        self.ws()
        m = re.compile(r"[A-Za-z_][A-Za-z0-9_]*(?:#\d+)?").match(self.s, self.i)
        if not m:
            raise ValueError(f'type parse: ident at {self.i} in {self.s!r}')
        self.i = m.end()
        return m.group()

    def lifetime(self):
        m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*|'\{erased\}").match(self.s, self.i)
        if m:
            self.i = m.end()
            return True
        return False

    def braces(self):
        """{closure@...} style"""
        d = 0
        st = self.i
        while True:
            c = self.s[self.i]
            if c == '{':
                d += 1
            elif c == '}':
                d -= 1
                if d == 0:
                    self.i += 1
                    return self.s[st:self.i]
            self.i += 1

    def generic_args(self):
        """after '<' ; parse until matching '>'"""
        args = []
        while not self.eat('>'):
            self.ws()
            if self.lifetime():
                pass
            else:
                # assoc binding  Name = T
                m = re.compile(r"([A-Za-z_][A-Za-z0-9_]*) = ").match(self.s, self.i)
                if m:
                    self.i = m.end()
                    t = self.ty()
                    args.append(Ty('bind', m.group(1), [t]))
                else:
                    args.append(self.ty())
            self.eat(',')
        return args

    def ty(self):
        self.ws()
        s = self.s
        if self.eat('!'):
            return NEVER
        if self.eat('&'):
            self.ws()
            self.lifetime()
            self.ws()
            mut = False
            if self.peek('mut '):
                self.eat('mut ')
                mut = True
            return Ty('ref', '', [self.ty()], mut)
        if self.peek('*const ') or self.peek('*mut '):
            m = 'const' if self.eat('*const ') else (self.eat('*mut ') and 'mut')
            return Ty('ptr', '', [self.ty()], m)
        if self.eat('('):
            args = []
            while not self.eat(')'):
                args.append(self.ty())
                self.eat(',')
            return Ty('tuple', '', args)
        if self.eat('['):
            t = self.ty()
            if self.eat(';'):
                j = self.i
                d = 0
                while not (s[j] == ']' and d == 0):
                    if s[j] in '[{(':
                        d += 1
                    if s[j] in ']})':
                        d -= 1
                    j += 1
                n = s[self.i:j].strip()
                self.i = j
                self.expect(']')
                return Ty('array', '', [t], n)
            self.expect(']')
            return Ty('slice', '', [t])
        if self.peek('{'):
            b = self.braces()
            t = Ty('closure', b)
            return t
        if self.peek('for<'):
            self.eat('for<')
            while not self.eat('>'):
                self.i += 1
            return self.ty()
        if self.peek('dyn '):
            self.eat('dyn ')
            b = self.bounds()
            return Ty('dyn', b)
        if self.peek('impl '):
            self.eat('impl ')
            b = self.bounds()
            return Ty('adt', 'impl ' + b)
        if self.peek('unsafe ') or self.peek('extern ') or self.peek('fn('):
            st = self.i
            while not self.peek('fn('):
                self.i += 1
            self.i += 3
            args = []
            while not self.eat(')'):
                args.append(self.ty())
                self.eat(',')
            ret = UNIT
            if self.eat('->'):
                ret = self.ty()
            if self.peek(' {') or self.peek('{'):
                self.ws()
                b = self.braces()
                return Ty('fndef', b[1:-1], args + [ret])
            return Ty('fnptr', '', args + [ret])
        if self.eat('<'):
            t = self.ty()
            tr = None
            if self.eat('as '):
                tr = self.ty()
            self.expect('>')
            name = f'<{t} as {tr}>' if tr else f'<{t}>'
            while self.eat('::'):
                if self.peek('<'):
                    self.eat('<')
                    self.generic_args()
                else:
                    name += '::' + self.ident()
            return Ty('proj', name, [t] + ([tr] if tr else []))
        if self.peek('const '):
            self.eat('const ')
            j = self.i
            while j < len(s) and s[j] not in ',>':
                j += 1
            n = s[self.i:j]
            self.i = j
            return Ty('const', n)
        m = re.compile(r"-?\d[0-9_a-z]*|true|false").match(s, self.i)
        if m and (s[self.i].isdigit() or s[self.i] == '-' ):
            self.i = m.end()
            return Ty('const', m.group())
        # path
        name = self.ident()
        args = []
        while True:
            if self.peek('::'):
                self.eat('::')
                self.ws()
                if self.eat('<'):
                    args = self.generic_args()
                elif self.peek('{'):
                    name += '::' + self.braces()
                else:
                    name += '::' + self.ident()
                    args = []
                continue
            if self.peek('<') and not self.peek('<='):
                self.eat('<')
                args += self.generic_args()
                continue
            if self.peek('(') and name.rsplit('::', 1)[-1] in ('Fn', 'FnMut', 'FnOnce'):
                self.eat('(')
                a = []
                while not self.eat(')'):
                    a.append(self.ty())
                    self.eat(',')
                r = UNIT
                if self.eat('->'):
                    r = self.ty()
                args = [Ty('tuple', '', a), r]
                continue
            break
        return Ty('adt', canon_path(name), args)

    def bounds(self):
        out = []
        while True:
            self.ws()
            if self.lifetime():
                out.append("'_")
            else:
                self.eat('?')
                out.append(str(self.ty()))
            if not self.eat('+'):
                break
        return ' + '.join(out)


@lru_cache(maxsize=None)
def parse_ty(s):
    p = TyParser(s)
    t = p.ty()
    p.ws()
    if p.i != len(s):
        raise ValueError(f'type parse: trailing {s[p.i:]!r} in {s!r}')
    return t
