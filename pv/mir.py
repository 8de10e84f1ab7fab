"""Parser for rustc's textual MIR dumps (one function per file)."""
import os
import re
from .tys import parse_ty, TyParser, Ty


class Fn:
    def __init__(self):
        self.path = ''
        self.name = ''
        self.args = []        # local numbers
        self.locals = {}      # n -> Ty
        self.debug = []       # (name, place-string)
        self.blocks = {}      # n -> Block
        self.ret = None
        self.file = ''
        self.allocs = {}
        self.text = ''


class Block:
    __slots__ = ('stmts', 'term', 'cleanup')


class ParseError(Exception):
    pass


_open = '([{<'
_close = ')]}>'


def split_top(s, sep=','):
    """Split at top-level separators; understands strings, chars and ->."""
    out, d, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j+1])
            i = j + 1
            continue
        if c == "'":
            m = re.compile(r"'(\\u\{[0-9a-f]+\}|\\.|[^\\'])'").match(s, i)
            if m:
                cur.append(m.group())
                i = m.end()
                continue
        if s.startswith('->', i) or s.startswith('=>', i):
            cur.append(s[i:i+2])
            i += 2
            continue
        if c in _open:
            d += 1
        elif c in _close:
            d -= 1
        if c == sep and d == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = ''.join(cur).strip()
    if t or out:
        out.append(t)
    return [x for x in out if x != ''] if sep == ',' else out


def match_close(s, i):
    """index of the bracket closing s[i]"""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'":
            m = re.compile(r"'(\\u\{[0-9a-f]+\}|\\.|[^\\'])'").match(s, i)
            if m:
                i = m.end() - 1
        elif s.startswith('->', i) or s.startswith('=>', i):
            i += 1
        elif c in _open:
            d += 1
        elif c in _close:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ParseError('unbalanced ' + s)


# ---- places: ('local', n) base with list of projections
# proj: ('deref',) ('field', i, Ty) ('downcast', name) ('index', local) ('cindex', i, from_end, minlen)
#       ('subslice', a, b, from_end)

class PlaceParser:
    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def place(self):
        s = self.s
        if s[self.i] == '(':
            if s[self.i+1] == '*':
                self.i += 2
                base, pr = self.place()
                self._exp(')')
                r = (base, pr + [('deref',)])
            else:
                self.i += 1
                base, pr = self.place()
                if s[self.i] == '.':
                    m = re.compile(r'\.(\d+): ').match(s, self.i)
                    self.i = m.end()
                    tp = TyParser(s)
                    tp.i = self.i
                    t = tp.ty()
                    self.i = tp.i
                    self._exp(')')
                    r = (base, pr + [('field', int(m.group(1)), t)])
                elif s.startswith(' as ', self.i):
                    self.i += 4
                    m = re.compile(r'(variant#\d+|[A-Za-z_][A-Za-z0-9_#]*)').match(s, self.i)
                    if m and s[m.end()] == ')':
                        self.i = m.end()
                        self._exp(')')
                        r = (base, pr + [('downcast', m.group(1))])
                    elif s.startswith('subtype', self.i):
                        raise ParseError('subtype ' + s)
                    else:
                        raise ParseError('cast place ' + s[self.i:])
                else:
                    raise ParseError('place: ' + s[self.i:])
        else:
            m = re.compile(r'_(\d+)').match(s, self.i)
            if not m:
                raise ParseError('place: ' + s[self.i:])
            self.i = m.end()
            r = (int(m.group(1)), [])
        while self.i < len(s) and s[self.i] == '[':
            j = match_close(s, self.i)
            inner = s[self.i+1:j]
            self.i = j + 1
            base, pr = r
            m = re.fullmatch(r'_(\d+)', inner)
            if m:
                r = (base, pr + [('index', int(m.group(1)))])
                continue
            m = re.fullmatch(r'(-?)(\d+) of (\d+)', inner)
            if m:
                r = (base, pr + [('cindex', int(m.group(2)), bool(m.group(1)), int(m.group(3)))])
                continue
            m = re.fullmatch(r'(\d*):(-?)(\d*)', inner)
            if m:
                r = (base, pr + [('subslice', int(m.group(1) or 0), int(m.group(3) or 0), bool(m.group(2)) or m.group(3) == '')])
                continue
            raise ParseError('index ' + inner)
        return r

    def _exp(self, c):
        if self.s[self.i] != c:
            raise ParseError(f'expected {c} at {self.s[self.i:]} in {self.s}')
        self.i += 1


def parse_place(s):
    p = PlaceParser(s.strip())
    r = p.place()
    if p.i != len(p.s):
        raise ParseError('trailing in place: ' + s)
    return (r[0], tuple(r[1]))


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge',
          'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}
UNOPS = {'Not', 'Neg', 'PtrMetadata'}


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('deref_copy '):
        return ('copy', parse_place(s[11:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if s.startswith('RuntimeChecks('):
        return ('const', 'false')
    if re.match(r'[A-Za-z_<]', s) and '::' in s and not s.startswith('_'):
        return ('const', s)      # a function named as a value
    raise ParseError('operand: ' + s)


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('&raw '):
        m = re.match(r'&raw (const|mut) ', s)
        return ('rawref', m.group(1), parse_place(s[m.end():]))
    if s.startswith('&'):
        m = re.match(r"&(fake shallow |fake deep |fake |mut |two_phase mut )?", s)
        r = s[m.end():]
        return ('ref', (m.group(1) or '').strip(), parse_place(r))
    if s.startswith(('copy ', 'move ', 'const ', 'deref_copy ')):
        # maybe a cast:  OP as T (Kind)
        if s.startswith('const '):
            k = find_as(s)
        else:
            k = find_as(s)
        if k is not None:
            op, rest = s[:k], s[k+4:]
            j = rest.rfind(' (')
            return ('cast', parse_operand(op), parse_ty(rest[:j]), rest[j+2:-1])
        return ('use', parse_operand(s))
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and match_close(s, m.end()-1) == len(s)-1:
        nm = m.group(1)
        inner = s[m.end():-1]
        if nm == 'discriminant':
            return ('discr', parse_place(inner))
        if nm == 'Len':
            return ('len', parse_place(inner))
        if nm in BINOPS:
            a, b = split_top(inner)
            return ('bin', nm, parse_operand(a), parse_operand(b))
        if nm in UNOPS:
            return ('un', nm, parse_operand(inner))
        if nm == 'RuntimeChecks':
            return ('use', ('const', 'false'))
    if s.startswith('['):
        inner = s[1:-1]
        if match_close(s, 0) == len(s)-1:
            parts = split_top(inner, ';')
            if len(parts) == 2:
                return ('repeat', parse_operand(parts[0]), parts[1].strip())
            return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('(') and match_close(s, 0) == len(s)-1:
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{') :
        j = match_close(s, 0)
        head = s[:j+1]
        rest = s[j+1:].strip()
        ops = []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                k = f.index(': ')
                ops.append((f[:k].strip(), parse_operand(f[k+2:])))
        elif rest.startswith('('):
            for n, f in enumerate(split_top(rest[1:-1])):
                ops.append((str(n), parse_operand(f)))
        return ('closure', head, ops)
    # ADT aggregate: Path { f: op, .. }  |  Path(op, ..)  | Path
    if s.endswith('}'):
        # find ' {' at top level
        d = 0
        for i, c in enumerate(s):
            if c == '{' and d == 0 and i > 0 and s[i-1] == ' ':
                path = s[:i].strip()
                fields = []
                for f in split_top(s[i+1:-1]):
                    k = f.index(': ')
                    fields.append((f[:k].strip(), parse_operand(f[k+2:])))
                return ('adt', path, fields, 'named')
            if s.startswith('->', i):
                continue
            if c in '<([':
                d += 1
            elif c in '>)]' and s[i-1] != '-':
                d -= 1
    if s.endswith(')'):
        # find matching open
        d = 0
        i = 0
        while i < len(s):
            if s[i] == '<':
                i = match_close(s, i) + 1
                continue
            if s[i] == '(':
                if match_close(s, i) == len(s)-1:
                    return ('adt', s[:i], [(str(n), parse_operand(x)) for n, x in enumerate(split_top(s[i+1:-1]))], 'tuple')
                i = match_close(s, i) + 1
                continue
            i += 1
    return ('adt', s, [], 'unit')


def find_as(s):
    """position of top-level ' as ' or None"""
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'":
            m = re.compile(r"'(\\u\{[0-9a-f]+\}|\\.|[^\\'])'").match(s, i)
            if m:
                i = m.end() - 1
        elif s.startswith('->', i) or s.startswith('=>', i):
            i += 1
        elif c in _open:
            d += 1
        elif c in _close:
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return i
        i += 1
    return None


def find_eq(s):
    """position of top-level ' = '"""
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('->', i):
            i += 2
            continue
        if c in _open:
            d += 1
        elif c in _close:
            d -= 1
        elif d == 0 and s.startswith(' = ', i):
            return i
        i += 1
    return None


def parse_targets(s):
    """[return: bb1, unwind: bb2] -> dict"""
    s = s.strip()
    if s.startswith('['):
        out = {}
        for p in split_top(s[1:-1]):
            if ': ' in p:
                k, v = p.split(': ', 1)
                m = re.match(r'bb(\d+)', v)
                out[k.strip()] = int(m.group(1)) if m else v
        return out
    m = re.match(r'bb(\d+)', s)
    if m:
        return {'return': int(m.group(1))}
    return {}


def parse_call_expr(s):
    """FUNC(args) -> (func, [operands])"""
    # the args are the last top-level parenthesis group
    i = 0
    last = None
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('->', i):
            i += 2
            continue
        if c in '<[{':
            i = match_close(s, i) + 1
            continue
        if c == '(':
            j = match_close(s, i)
            last = (i, j)
            i = j + 1
            continue
        i += 1
    i, j = last
    assert j == n - 1, s
    func = s[:i].strip()
    args = [parse_operand(x) for x in split_top(s[i+1:j])]
    return func, args


def rsplit_arrow(s):
    """split at the last top-level ' -> '"""
    i = 0
    pos = None
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith(' -> ', i):
            pos = i
            i += 4
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c in '([{<':
            i = match_close(s, i)
        i += 1
    return s[:pos], s[pos+4:]


def parse_term(line):
    s = line.rstrip(';')
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate') or s.startswith('abort') or s.startswith('coroutine_drop'):
        return ('resume',)
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s.startswith('switchInt('):
        j = match_close(s, 9)
        op = parse_operand(s[10:j])
        tg = s[j+1:].strip()[3:].strip()
        cases, other = [], None
        for p in split_top(tg[1:-1]):
            k, v = p.split(': ')
            b = int(v[2:])
            if k == 'otherwise':
                other = b
            else:
                cases.append((int(k), b))
        return ('switch', op, cases, other)
    if s.startswith('drop('):
        j = match_close(s, 4)
        return ('drop', parse_place(s[5:j]), parse_targets(s[j+1:].strip()[3:]).get('return'))
    if s.startswith('assert('):
        j = match_close(s, 6)
        parts = split_top(s[7:j])
        c = parts[0]
        exp = True
        if c.startswith('!'):
            exp = False
            c = c[1:]
        t = parse_targets(s[j+1:].strip()[3:])
        return ('assert', parse_operand(c), exp, parts[1:], t.get('success', t.get('return')))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        t = parse_targets(s.split(' -> ', 1)[1])
        return ('goto', t.get('real'))
    if ' = yield(' in s:
        k = find_eq(s)
        rest = s[k+3:]
        j = match_close(rest, 5)
        return ('yield', parse_place(s[:k]), parse_targets(rest[j+1:].strip()[3:]).get('resume'))
    k = find_eq(s)
    if k is None:
        # call that diverges w/o destination?
        raise ParseError('term: ' + s)
    dest = parse_place(s[:k])
    expr, tg = rsplit_arrow(s[k+3:])
    func, args = parse_call_expr(expr)
    return ('call', dest, func, args, parse_targets(tg).get('return'))


def parse_file(path, other=False):
    """other: of the binary, where the library's paths start with its name"""
    text = open(path, encoding='utf-8').read()
    if other:
        text = re.sub(r'\bprocstar::(?=\w|<)', '', text)
    return parse_text(text, os.path.basename(path))


TERM_PREFIX = ('return;', 'unreachable;', 'resume;', 'terminate', 'abort', 'goto ', 'switchInt(', 'drop(', 'assert(',
               'falseEdge', 'falseUnwind', 'coroutine_drop')


def subtypes(t):
    yield t
    for a in t.args:
        if isinstance(a, Ty):
            yield from subtypes(a)


def parse_text(text, fname=''):
    f = Fn()
    f.file = fname
    f.text = text
    lines = text.split('\n')
    m = re.match(r'// MIR for `(.*)` before', lines[0])
    f.path = m.group(1) if m else ''
    # header: first line that ends with '{' and isn't comment
    i = 1
    while not lines[i] or lines[i].startswith('//') or lines[i].startswith('/*') or lines[i].startswith(' *'):
        i += 1
    head = lines[i]
    f.head = head
    f.kind = head.split(' ', 1)[0]
    i += 1
    if f.kind in ('fn', 'async', 'unsafe', 'const', 'extern') or '(_' in head:
        for a in re.finditer(r'[(,] ?_(\d+): ', head):
            f.args.append(int(a.group(1)))
    # arg types: parse
    for n in f.args:
        k = head.index(f'_{n}: ') + len(f'_{n}: ')
        tp = TyParser(head)
        tp.i = k
        f.locals[n] = tp.ty()
    while i < len(lines):
        ln = lines[i].strip()
        m = re.match(r'debug (.*) => (.*);$', ln)
        if m:
            f.debug.append((m.group(1), m.group(2)))
        m = re.match(r'let (?:mut )?_(\d+): (.*);$', ln)
        if m:
            f.locals[int(m.group(1))] = parse_ty(m.group(2))
        m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', ln)
        if m:
            n = int(m.group(1))
            b = Block()
            b.cleanup = bool(m.group(2))
            b.stmts = []
            b.term = None
            body = []
            i += 1
            while lines[i].strip() != '}':
                l2 = lines[i].strip()
                # multi-line string constants do not occur: they are escaped
                body.append(re.sub(r'\s+// .*$', '', l2) if '"' not in l2 else l2)
                i += 1
            if not b.cleanup:
                for s in body[:-1]:
                    st = parse_stmt(s)
                    if st:
                        b.stmts.append(st)
                b.term = parse_term(body[-1])
            f.blocks[n] = b
        m = re.match(r'(alloc\d+) \((?:static: ([^,]*), )?(.*)\) \{', ln)
        if m:
            data = []
            if not ln.endswith('}'):
                i += 1
                while lines[i].strip() != '}':
                    data.append(lines[i])
                    i += 1
            f.allocs[m.group(1)] = (m.group(2), m.group(3), data)
        i += 1
    f.ret = f.locals.get(0)
    f.params = sorted({t.name for x in f.locals.values() for t in subtypes(x) if t.kind == 'adt' and not t.args and re.fullmatch(r'[A-Z][0-9]?', t.name)})
    return f


def parse_stmt(s):
    if s.startswith(('StorageLive(',)):
        return None
    if s.startswith('StorageDead('):
        return ('dead', int(re.match(r'StorageDead\(_(\d+)\)', s).group(1)))
    if s.startswith(('nop', 'PlaceMention', 'FakeRead', 'AscribeUserType', 'Coverage', 'ConstEvalCounter', 'Retag',
                     'BackwardIncompatibleDropHint', '//', 'assume(')):
        return None
    s = s.rstrip(';')
    m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
    if m:
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    k = find_eq(s)
    if k is None:
        raise ParseError('stmt: ' + s)
    return ('assign', parse_place(s[:k]), parse_rvalue(s[k+3:]))
