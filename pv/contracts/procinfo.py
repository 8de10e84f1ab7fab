"""Process statistics from /proc."""
import re
from ..contract import *
from ..std import *
from .procs import field, fty
from .signals import SIGNALS

F64 = Ty('adt', 'f64')
STAT, STATM = Ty('adt', 'procinfo::ProcStat'), Ty('adt', 'procinfo::ProcStatm')
VSTR = parse_ty('Vec<String>')

# proc(5): the fields of /proc/PID/stat after the name, and what the kernel can print for each
FIELDS = [('state', 'word'), ('ppid', 'i32'), ('pgrp', 'pid'), ('session', 'i32'), ('tty_nr', 'i32'), ('tpgid', 'tpgid'), ('flags', 'u32'),
          ('minflt', 'u64'), ('cminflt', 'u64'), ('majflt', 'u64'), ('cmajflt', 'u64'), ('utime', 'u64'), ('stime', 'u64'), ('cutime', 'u64'),
          ('cstime', 'u64'), ('priority', 'i64'), ('nice', 'i64'), ('num_threads', 'i32'), ('itrealvalue', 'u64'), ('starttime', 'u50'),
          ('vsize', 'u64'), ('rss', 'u40'), ('rsslim', 'u64'), ('startcode', 'u64'), ('endcode', 'u64'), ('startstack', 'u64'), ('kstkesp', 'u64'),
          ('kstkeip', 'u64'), ('signal', 'u31'), ('blocked', 'u31'), ('sigignore', 'u31'), ('sigcatch', 'u31'), ('wchan', 'u64'), ('nswap', 'u64'),
          ('cnswap', 'u64'), ('exit_signal', 'exit'), ('processor', 'i32'), ('rt_priority', 'u32'), ('policy', 'u32'),
          ('delayacct_blkio_ticks', 'u64'), ('guest_time', 'u64'), ('cguest_time', 'i64'), ('start_data', 'u64'), ('end_data', 'u64'),
          ('start_brk', 'u64'), ('arg_start', 'u64'), ('arg_end', 'u64'), ('env_start', 'u64'), ('env_end', 'u64'), ('exit_code', 'i32')]
RANGE = dict(pid=(1, 2 ** 31 - 1), tpgid=(-1, 2 ** 31 - 1), u50=(0, 2 ** 50), u40=(0, 2 ** 40), u31=(0, 2 ** 31 - 1), exit=(-1, 255))
RANGE.update({k: INTS[k] for k in ('i32', 'u32', 'i64', 'u64')})
PLAIN = ['pid', 'ppid', 'pgrp', 'session', 'flags', 'minflt', 'cminflt', 'majflt', 'cmajflt', 'priority', 'nice', 'num_threads', 'vsize', 'rsslim',
         'wchan', 'processor', 'rt_priority', 'policy', 'cguest_time', 'exit_code']
TICKS = ['utime', 'stime', 'cutime', 'cstime', 'delayacct_blkio_ticks', 'guest_time']


class Pieces:
    """Texts put together of literals, printed numbers and words without spaces or parentheses, and texts of any content.

    An atom is a str or (kind, string term, value) with kind 'num', 'real', 'word' or 'any'."""

    def __init__(self):
        self.tab = {}          # name of a string constant -> atoms
        self.pos = {}          # name of an int constant -> (text, atoms before, atoms from)
        self.n = 0

    def const(self, sort, p):
        self.n += 1
        return z3.Const(f'{p}${self.n}', sort)

    def new(self, atoms):
        out = []
        for a in atoms:
            if isinstance(a, str):
                if not a:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += a
                    continue
            out.append(a)
        if not out:
            return z3.StringVal('')
        if len(out) == 1:
            return z3.StringVal(out[0]) if isinstance(out[0], str) else out[0][1]
        t = self.const(S, 'text')
        self.tab[str(t)] = out
        return t

    def atom(self, kind, value=None, term=None):
        t = self.const(S, kind) if term is None else term
        a = (kind, t, value)
        self.tab[str(t)] = [a]
        return a

    def of(self, t):
        if not z3.is_expr(t) or not z3.is_string(t):
            return None
        if z3.is_string_value(t):
            return [t.as_string()]
        return self.tab.get(str(t)) if z3.is_const(t) else None

    # ---------------------------------------------------------------- operations; results as [(state, before, after)] or (state, None)
    def split(self, E, st, atoms, p, last):
        """at the first or last occurrence of p"""
        for i, a in enumerate(atoms):
            if not isinstance(a, str) and a[0] == 'any':
                for k in range(1, len(p)):
                    nx = atoms[i + 1] if i + 1 < len(atoms) else ''
                    pv = atoms[i - 1] if i else ''
                    if isinstance(nx, str) and nx.startswith(p[k:]) or isinstance(pv, str) and pv.endswith(p[:k]):
                        # whether it straddles depends on the text
                        return self.straddle(E, st, atoms, i, p, last)
        return self.scan(E, st, atoms, p, last, 0 if not last else len(atoms) - 1)

    def straddle(self, E, st, atoms, i, p, last):
        raise Unsupported(f'pattern {p!r} may straddle a text of any content')

    def scan(self, E, st, atoms, p, last, i):
        while 0 <= i < len(atoms):
            a = atoms[i]
            if isinstance(a, str):
                j = a.rfind(p) if last else a.find(p)
                if j >= 0:
                    return [(st, (atoms[:i] + [a[:j]], [a[j:]] + atoms[i + 1:]))]
            elif a[0] == 'any':
                out = []
                has = z3.Contains(a[1], z3.StringVal(p))
                s1 = st.copy()
                s1.assume(has)
                x, y = self.atom('any'), self.atom('any')
                s1.assume(a[1] == z3.Concat(x[1], z3.StringVal(p), y[1]))
                s1.assume(z3.Not(z3.Contains((y if last else x)[1], z3.StringVal(p))))
                if E.feasible(s1):
                    out.append((s1, (atoms[:i] + [x], [p, y] + atoms[i + 1:])))
                s2 = st.copy()
                s2.assume(z3.Not(has))
                return out + self.scan(E, s2, atoms, p, last, i + (-1 if last else 1))
            elif any(c not in ' ()\n\t,:/' for c in p):
                raise Unsupported(f'search for {p!r} in a number or word')
            i += -1 if last else 1
        return [(st, None)]

    def strip(self, atoms, start=True, end=True):
        ws = ' \t\n\r'
        atoms = list(atoms)
        while start and atoms and isinstance(atoms[0], str):
            x = atoms[0].lstrip(ws)
            if x:
                atoms[0] = x
                break
            atoms.pop(0)
        while end and atoms and isinstance(atoms[-1], str):
            x = atoms[-1].rstrip(ws)
            if x:
                atoms[-1] = x
                break
            atoms.pop()
        if atoms and (start and not isinstance(atoms[0], str) and atoms[0][0] == 'any' or end and not isinstance(atoms[-1], str) and atoms[-1][0] == 'any'):
            raise Unsupported('trimming a text of any content')
        return atoms

    def parts(self, atoms, sep):
        """all parts between separators (None: runs of white space)"""
        out, cur = [], []
        for a in atoms:
            if isinstance(a, str):
                xs = re.split(r'[ \t\n\r]', a) if sep is None else a.split(sep)
                cur.append(xs[0])
                for x in xs[1:]:
                    out.append(cur)
                    cur = [x]
            elif a[0] == 'any':
                raise Unsupported('splitting a text of any content')
            else:
                cur.append(a)
        out.append(cur)
        out = [self.new(x) for x in out]
        return [x for x in out if not (z3.is_string_value(x) and x.as_string() == '')] if sep is None else out

    def overrides(self, E):
        P = self

        def std(c):
            for k in (c.cal.key, c.cal.plain, c.cal.short):
                if k in E.intrinsics:
                    return E.intrinsics[k]
            raise Unsupported(c.cal.key)

        def of(E, st, x):
            try:
                return P.of(val(E, st, x))
            except Unsupported:
                return None

        def lit(E, st, x):
            p = pat(E, st, x)
            if not z3.is_string_value(p):
                raise Unsupported('pattern')
            return p.as_string()

        def once(E, st, c):
            a = of(E, st, c.args[0])
            if a is None:
                return std(c)(E, st, c)
            p = lit(E, st, c.args[1])
            out = []
            for s, r in P.split(E, st, a, p, c.cal.method[0] == 'r'):
                if r is None:
                    out.append((s, Agg(c.dty, [], 0)))
                else:
                    rest = [r[1][0][len(p):]] + r[1][1:]
                    out.append((s, Agg(c.dty, [Agg(c.dty.args[0], [E.str_ref(s, P.new(r[0])), E.str_ref(s, P.new(rest))])], 1)))
            return out

        def find(E, st, c):
            a = of(E, st, c.args[0])
            if a is None:
                return std(c)(E, st, c)
            p = lit(E, st, c.args[1])
            out = []
            for s, r in P.split(E, st, a, p, c.cal.method[0] == 'r'):
                if r is None:
                    out.append((s, Agg(c.dty, [], 0)))
                else:
                    k = P.const(I, 'pos')
                    P.pos[str(k)] = (a, [x for x in r[0] if x != ''], [x for x in r[1] if x != ''])
                    s.assume(z3.And(k >= 0, k <= 1 << 48))
                    out.append((s, Agg(c.dty, [k], 1)))
            return out

        def at(t, atoms, end):
            """(before, from) of a position"""
            t = simp(t)
            if as_int(t) == 0:
                return [], atoms
            if end and t.eq(simp(z3.Length(end))):
                return atoms, []
            k, base = 0, t
            if z3.is_add(t) and t.num_args() == 2:
                x, y = t.arg(0), t.arg(1)
                k, base = (as_int(x), y) if as_int(x) is not None else (as_int(y), x)
            r = P.pos.get(str(base))
            if r is None or k is None or k < 0 or r[0] != atoms:
                raise Unsupported('string position')
            b, f = list(r[1]), list(r[2])
            if k and not (f and isinstance(f[0], str) and len(f[0]) >= k):
                raise Unsupported('string position')
            if k:
                b, f = b + [f[0][:k]], [f[0][k:]] + f[1:]
            return b, f

        def flat(atoms):
            out = []
            for a in atoms:
                out += list(a) if isinstance(a, str) else [a]
            return out

        def index(E, st, c):
            a = of(E, st, c.args[0])
            if a is None:
                return std(c)(E, st, c)
            t = val(E, st, c.args[0])
            if not isinstance(c.args[1], (Agg, Sym)):
                return std(c)(E, st, c)
            lo, hi = range_bounds(E, st, z3.Length(t), c.args[1])
            b, f = at(lo, a, t)
            b2, _ = at(hi, a, t)
            x, y = flat(b), flat(b2)
            if y[:len(x)] != x:
                raise Unsupported('string slice')
            r = E.str_ref(st, P.new(y[len(x):]))
            return r if c.cal.method == 'index' else Agg(c.dty, [r], 1)

        def trim(E, st, c):
            a = of(E, st, c.args[0])
            if a is None:
                return std(c)(E, st, c)
            m = c.cal.method
            return E.str_ref(st, P.new(P.strip(a, m != 'trim_end', m != 'trim_start')))

        def split(E, st, c):
            a = of(E, st, c.args[0])
            if a is None:
                return std(c)(E, st, c)
            sep = None if 'whitespace' in c.cal.method else lit(E, st, c.args[1])
            items = P.parts(a, sep)
            vec = VecV(Ty('ref', '', [STR]), [E.str_ref(st, x) for x in items])
            return seq_iter(vec, None, 'val')

        def parse(E, st, c):
            v = val(E, st, c.args[0])
            a = P.of(v)
            t = c.dty.args[0]
            if a is None or z3.is_string_value(v) or len(a) != 1:
                if a is not None and len(a) > 1:
                    return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'perr')], 1)     # a separator in it
                return std(c)(E, st, c)
            kind, _, x = a[0]
            bad = lambda s: Agg(c.dty, [E.fresh(s, c.dty.args[1], 'perr')], 1)
            if kind == 'num' and t.is_int():
                if E.decide(st, simp(E.in_range(x, t.name))):
                    return Agg(c.dty, [x], 0)
                return bad(st)
            if kind in ('num', 'real') and t.name in ('f64', 'f32'):
                return Agg(c.dty, [z3.ToReal(x) if kind == 'num' else x], 0)
            if kind == 'real':
                return bad(st)
            return std(c)(E, st, c)

        def empty(E, st, c):
            a = of(E, st, c.args[0])
            if a is None:
                return std(c)(E, st, c)
            if any(isinstance(x, str) or x[0] != 'any' for x in a):
                return z3.BoolVal(False)
            return std(c)(E, st, c)
        d = {}
        for n in ('split_once', 'rsplit_once'):
            d['str::' + n] = once
        for n in ('find', 'rfind'):
            d['str::' + n] = find
        for n in ('trim', 'trim_end', 'trim_start'):
            d['str::' + n] = trim
        for n in ('split', 'split_whitespace', 'split_ascii_whitespace'):
            d['str::' + n] = split
        d['str::parse'] = d['FromStr::from_str'] = parse
        d['Index::index'] = d['str::get'] = index
        d['str::is_empty'] = empty
        return d


class Stat(Contract):
    """ProcStat::load_or_log: if the kernel has a stat file for that pid, the fields of the same name in it, converted as documented,
    whatever name the process has; otherwise none"""
    target = 'procinfo::ProcStat::load_or_log'
    path, out = 'stat', STAT
    budget = 300
    covers = ('there', 'missing')
    assumes = ['the stat file is as fs/proc/array.c of Linux writes it: signed and unsigned decimals in the ranges of their C types, the masks below 2^31',
               'the name of a process may be any bytes; read_to_string refuses what is not UTF-8, from_utf8_lossy keeps what is',
               'chrono renders a UTC time in RFC 3339; system time and f64 arithmetic is that of real numbers', 'expand_sig_bitmap and get_abbrev as under their own contracts',
               'start times below 2^50 ticks, resident sets below 2^40 pages', '/proc/uptime gives the time since boot; sysconf gives the tick and page size']

    def line(self, E, st):
        P = self.P
        self.v = {}
        self.comm = P.atom('any')
        atoms = []
        pid = self.v['pid'] = z3.Int('stat_pid')
        st.assume(z3.And(pid >= 1, pid < 2 ** 31))
        atoms += [P.atom('num', pid), ' (', self.comm, ')']
        for n, k in FIELDS:
            if k == 'word':
                a = P.atom('word')
                self.v[n] = a[1]
            else:
                x = self.v[n] = z3.Int('stat_' + n)
                lo, hi = RANGE[k]
                st.assume(z3.And(x >= lo, x <= hi))
                a = P.atom('num', x)
                for c in (0, 1, -1):
                    st.assume((a[1] == z3.StringVal(str(c))) == (x == c))
            atoms += [' ', a]
        # tty_nr encodes a device number, as the kernel's new_encode_dev does
        self.maj, hi, lo = z3.Ints('major minor_high minor_low')
        st.assume(z3.And(self.maj >= 0, self.maj < 2 ** 12, hi >= 0, hi < 2 ** 12, lo >= 0, lo < 2 ** 8))
        self.min = hi * 256 + lo
        enc = lo + self.maj * 256 + hi * 2 ** 20
        st.assume(self.v['tty_nr'] == z3.If(enc >= 2 ** 31, enc - 2 ** 32, enc))
        return atoms + ['\n']

    def setup(self, E, st, f):
        self.pid = z3.Int('pid')
        st.assume(z3.And(self.pid >= 1, self.pid < 2 ** 31))
        self.tick, self.page = z3.Ints('tick page')
        st.assume(z3.And(self.tick >= 1, self.tick <= 10 ** 6, self.page >= 1, self.page <= 2 ** 20))
        self.now, self.up = z3.Reals('now uptime')
        st.assume(z3.And(self.up >= 0, self.up < 2 ** 50, self.now >= 0, self.now < 2 ** 50))
        self.utf8 = z3.Bool('name_is_utf8')
        self.text = self.P.new(self.line(E, st))
        self.uptext = self.P.new([self.P.atom('real', self.up), ' ', self.P.atom('real', z3.Real('idle')), '\n'])
        return [self.pid]

    def overrides(self, E):
        self.P = Pieces()
        d = self.P.overrides(E)

        def read(E, st, c):
            p = val(E, st, c.args[0])
            text = c.cal.method == 'read_to_string'
            if z3.is_string_value(p) and p.as_string() == '/proc/uptime':
                return Agg(c.dty, [self.uptext if text else PyV('bytes', text=self.uptext)], 0)
            want = z3.Concat(z3.StringVal('/proc/'), itoa(self.pid), z3.StringVal('/' + self.path))
            E.prove(st, p == want, f'reads /proc/PID/{self.path} of the pid asked for')
            event(E, st, 'read', [], None)
            if not E.decide(st, z3.Bool('there')):
                return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'ioerr')], 1)
            if text:
                if self.path == 'stat' and not E.decide(st, self.utf8):
                    return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'ioerr')], 1)
                return Agg(c.dty, [self.text], 0)
            return Agg(c.dty, [PyV('bytes', text=self.text)], 0)

        def lossy(E, st, c):
            v = val(E, st, c.args[0])
            if isinstance(v, PyV) and v.kind == 'bytes':
                if c.cal.method == 'from_utf8_lossy':
                    return Agg(Ty('adt', 'Cow', [STR]), [E.str_ref(st, v.text)], 0)
                if not v.text.eq(self.text) or self.path != 'stat' or E.decide(st, self.utf8):
                    return Agg(c.dty, [v.text if c.dty.args[0].kind != 'ref' else E.str_ref(st, v.text)], 0)
                return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'utf8err')], 1)
            raise Unsupported('from_utf8 of other bytes')

        def sysconf(E, st, c):
            k = as_int(c.args[0])
            if k not in (2, 30):
                raise Unsupported(f'sysconf {k}')
            return self.tick if k == 2 else self.page

        def frm(E, st, c):
            if c.dty is not None and c.dty.last == 'DateTime':
                v = val(E, st, c.args[0])
                if z3.is_expr(v) and z3.is_real(v):
                    return OpaqueV(c.dty, z3.Function('utc_of', R, E.sort(c.dty))(v))
            return E.intrinsics['From::from'](E, st, c)

        def sigs(E, st, c):
            n = c.args[0]
            return E.unpack(st, z3.Function('sigs', I, E.sort(VSTR))(n), VSTR)

        def abbrev(E, st, c):
            n = c.args[0]
            std = z3.Or([n == k for k in SIGNALS.values()])
            if E.decide(st, std):
                return Agg(c.dty, [E.str_ref(st, z3.Function('signame', I, S)(n))], 1)
            if E.decide(st, z3.And(n == 16, z3.Bool('stkflt_named'))):
                return Agg(c.dty, [E.str_ref(st, z3.StringVal('SIGSTKFLT'))], 1)
            return Agg(c.dty, [], 0)
        d['fs::read'] = d['fs::read_to_string'] = read
        d['String::from_utf8_lossy'] = d['String::from_utf8'] = d['str::from_utf8'] = lossy
        d['libc::sysconf'] = d['sysconf'] = sysconf
        d['SystemTime::now'] = lambda E, st, c: self.now
        d['From::from'] = frm
        d['<SystemTime as Sub>::sub'] = lambda E, st, c: simp(val(E, st, c.args[0]) - val(E, st, c.args[1]))
        d['<SystemTime as Add>::add'] = lambda E, st, c: simp(val(E, st, c.args[0]) + val(E, st, c.args[1]))
        d['expand_sig_bitmap'] = d['procinfo::expand_sig_bitmap'] = sigs
        d['get_abbrev'] = d['sig::get_abbrev'] = abbrev
        return d

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        there = z3.Bool('there')
        P = lambda c, n: E.prove(st, c, n)
        P(z3.BoolVal(len([e for e in st.trace if e[0] == 'read']) == 1), 'the file is read, once')
        P(there == z3.BoolVal(vi == 1), f'{self.out.last}: given exactly if there is a file, whatever the name of the process')
        if vi == 0:
            if not E.feasible(st, there):
                self.covered['missing'] = True
            return
        self.covered['there'] = True
        self.check(E, st, E.pack(st, fs[0], self.out), P)

    def check(self, E, st, t, P):
        F = lambda n: field(E, STAT, t, n)
        v = self.v
        P(F('comm') == self.comm[1], 'comm: the whole name')
        P(F('state') == v['state'], 'state')
        for n in PLAIN:
            P(F(n) == v[n], f'{n}: as it is')
        tick = z3.ToReal(self.tick)
        for n in TICKS:
            P(F(n) == z3.ToReal(v[n]) / tick, f'{n}: ticks as seconds')
        P(F('rss') == v['rss'] * self.page, 'rss: pages as bytes')
        tt = fty(E, STAT, 'tty_nr')
        x = E.unpack(st, F('tty_nr'), tt)
        a, b = [val(E, st, y) for y in fields(E, st, x).values()] if not isinstance(x, Agg) else x.fields
        P(z3.And(a == self.maj, b == self.min), 'tty_nr: the major and minor number')
        for n, absent in (('tpgid', v['tpgid'] == -1), ('exit_signal', v['exit_signal'] == 0)):
            o = F(n)
            so = o.sort()
            P(so.recognizer(1)(o) == z3.Not(absent), f'{n}: absent exactly if the kernel says none')
            if n == 'tpgid':
                P(z3.Implies(z3.Not(absent), so.accessor(1, 0)(o) == v[n]), 'tpgid: as it is')
            else:
                std = z3.Or([v[n] == k for k in SIGNALS.values()])
                P(z3.Implies(std, so.accessor(1, 0)(o) == z3.Function('signame', I, S)(v[n])), 'exit_signal: the name of the signal')
        boot = self.now - self.up
        start = boot + z3.ToReal(v['starttime']) / tick
        dt = parse_ty('DateTime<Utc>')
        P(F('starttime') == z3.Function('rfc3339', E.sort(dt), S)(z3.Function('utc_of', R, E.sort(dt))(start)), 'starttime: the UTC time so long after boot')
        for n in ('signal', 'blocked', 'sigignore', 'sigcatch'):
            P(F(n) == z3.Function('sigs', I, E.sort(VSTR))(v[n]), f'{n}: the signals of that mask')


class Statm(Stat):
    """ProcStatm::load_or_log: if the kernel has a statm file for that pid, the fields of the same name in it as bytes; otherwise none"""
    target = 'procinfo::ProcStatm::load_or_log'
    path, out = 'statm', STATM
    assumes = ['the statm file is as Linux writes it, with counts below 2^40 pages', 'sysconf gives the page size']

    def line(self, E, st):
        self.v, atoms = {}, []
        for n in ('size', 'resident', 'shared', 'text', 'lib', 'data', 'dt'):
            x = self.v[n] = z3.Int('statm_' + n)
            st.assume(z3.And(x >= 0, x <= 2 ** 40))
            atoms += ([' '] if atoms else []) + [self.P.atom('num', x)]
        return atoms + ['\n']

    def check(self, E, st, t, P):
        for n in ('size', 'resident', 'shared', 'text', 'data'):
            P(field(E, STATM, t, n) == self.v[n] * self.page, f'{n}: pages as bytes')


class SigBitmap(Contract):
    """expand_sig_bitmap: the names of exactly the signals whose bits, counted from one, are set, in order"""
    target = 'procinfo::expand_sig_bitmap'
    covers = ('any',)
    assumes = ['get_abbrev as under its own contract', 'pow2(k) stands for 2^k, and bit(x, k) for the bit of x that it selects']

    def overrides(self, E):
        def abbrev(E, st, c):
            n = c.args[0]
            if E.decide(st, z3.Or([n == k for k in SIGNALS.values()])):
                st.assume(z3.And([z3.Implies(n == k, self.name(n) == z3.StringVal(x)) for x, k in SIGNALS.items()]))
                return Agg(c.dty, [E.str_ref(st, self.name(n))], 1)
            if E.decide(st, z3.And(n == 16, z3.Bool('stkflt_named'))):
                return Agg(c.dty, [E.str_ref(st, z3.StringVal('SIGSTKFLT'))], 1)
            return Agg(c.dty, [], 0)
        return {'get_abbrev': abbrev, 'sig::get_abbrev': abbrev}

    def name(self, n):
        return z3.Function('signame', I, S)(n)

    def bit(self, t):
        return z3.Function('bit', I, I, B)(self.bits, t)

    def below(self, x, st=None):
        """how many signals below x are in the mask: none below 1, and with each signal one more if it is in it"""
        C = z3.Function('signals_below', I, I)
        if st is not None:
            for y in (x, x - 1):
                st.assume(C(y + 1) == C(y) + z3.If(self.bit(simp(y - 1)), 1, 0))
            st.assume(C(1) == 0)
        return C(x)

    def setup(self, E, st, f):
        E.symbits = True
        self.bits = z3.Int('bits')
        st.assume(z3.And(self.bits >= 0, self.bits < 2 ** 31))
        for k in range(32):
            st.assume(z3.Function('pow2', I, I)(k) == (2 ** k if k < 31 else -2 ** 31))
        # an arbitrary signal
        self.t = z3.Int('t')
        st.assume(z3.And(self.t >= 1, self.t < 32))
        return [self.bits]

    def listed(self, E, st, v, x):
        """v lists the signals below x"""
        t = self.t
        a = z3.Select(E.vec_arr(None, v), self.below(t))
        named = z3.And(t != 16, a == self.name(t))
        other = z3.And([a != z3.StringVal(n) for n in SIGNALS])
        n = self.below(x, st)
        return (v.length() == n, z3.Implies(z3.And(t < x, self.bit(t - 1)), z3.If(t == 16, other, named)),
                z3.Implies(t < x, z3.And(self.below(t) >= 0, self.below(t) + z3.If(self.bit(t - 1), 1, 0) <= n)))

    def loop_inv(self, L):
        E, out = L.E, {}
        ints = L.iters() + L.values(z3.ArithRef, lambda x: z3.is_int(x))
        for ik in ints:
            for d in (0, 1):
                key = f'{ik[1]}{ik[2]} {d}'
                out[f'range {key}'] = lambda st, ik=ik, d=d: z3.And(L.get(st, ik) + d >= 1, L.get(st, ik) + d <= 32)
                for vk in L.values(VecV):
                    for w in (0, 1, 2):
                        out[f'listed {w} {vk[1]} {key}'] = lambda st, vk=vk, ik=ik, d=d, w=w: self.listed(E, st, L.get(st, vk), L.get(st, ik) + d)[w]
        # copied one by one
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') == 'seq':
                src = E.vec_arr(None, it.vec)
                for vk in L.values(VecV):
                    def same(st, vk=vk, ik=ik, src=src):
                        k = self.below(self.t)
                        return z3.Implies(z3.And(k >= 0, k < L.get(st, ik)), z3.Select(E.vec_arr(None, L.get(st, vk)), k) == z3.Select(src, k))
                    out[f'copied {vk[1]} {ik[1]}'] = same
        return out

    def post(self, E, st, ret):
        self.covered['any'] = True
        v = val(E, st, ret)
        n, c, _ = self.listed(E, st, v, z3.IntVal(32))
        E.prove(st, n, 'as many names as signals in the mask')
        E.prove(st, c, 'each signal in the mask by its name, in order')


CONTRACTS = [Stat, Statm, SigBitmap]
