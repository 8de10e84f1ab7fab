"""How the agent secures its connection, and what it says about itself."""
from ..contract import *
from ..std import *
from .procs import *
from .command import environ, Expand, STR
from .agent import CONN

PINFO = Ty('adt', 'procinfo::ProcessInfo')
TLS = 'native-tls checks the certificate of the server against the roots of the system and those added, and its host name, unless told otherwise; a connector with such settings can be built'


def step(E, st, name, c, ok=None):
    r = E.fresh(st, c.dty if ok is None else c.dty.args[0 if ok else 1], name)
    event(E, st, name, list(c.args), r)
    return r if ok is None else Agg(c.dty, [r], 0 if ok else 1)


class TlsConnector(Expand):
    """net::get_tls_connector: a connector that checks certificates and host names as native-tls does, and trusts in addition exactly the certificate of the file
    PROCSTAR_AGENT_CERT names, if it is set; a certificate that cannot be read or parsed is an error, not ignored"""
    target = 'net::get_tls_connector'
    covers = ('plain', 'certificate', 'unreadable', 'damaged')
    assumes = Expand.assumes + [TLS]
    VAR = z3.StringVal('PROCSTAR_AGENT_CERT')
    # settings of a builder that make it accept less, or the same
    HARMLESS = ('use_sni', 'disable_built_in_roots')

    def overrides(self, E):
        d = super().overrides(E)

        def builder(E, st, c):
            return step(E, st, 'builder', c)

        def weaken(n):
            def f(E, st, c):
                v = val(E, st, c.args[1])
                E.prove(st, z3.Not(v), f'{n} is not set')
                return c.args[0]
            return f

        def setting(n):
            def f(E, st, c):
                E.prove(st, z3.BoolVal(False), f'{n}: as native-tls has it')
                return c.args[0]
            return f

        def read(E, st, c):
            self.path(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'readable'))
            return step(E, st, 'read' if ok else 'unreadable', c, ok)

        def pem(E, st, c):
            rd = [e for e in st.trace if e[0] == 'read']
            E.prove(st, z3.BoolVal(len(rd) == 1), 'one file is read')
            if len(rd) == 1:
                E.prove(st, self.same_bytes(E, st, c.args[0], rd[0][2]), 'the certificate is the contents of that file')
            ok = E.decide(st, E.fresh_const(B, 'certificate'))
            return step(E, st, 'pem' if ok else 'damaged', c, ok)

        def add(E, st, c):
            event(E, st, 'root', [], c.args[1])
            return c.args[0]
        d['TlsConnector::builder'] = builder
        d['TlsConnector::new'] = lambda E, st, c: step(E, st, 'plain', c, True)
        for n in ('danger_accept_invalid_certs', 'danger_accept_invalid_hostnames', 'disable_built_in_roots'):
            d['TlsConnectorBuilder::' + n] = weaken(n)
        for n in ('min_protocol_version', 'max_protocol_version', 'identity', 'use_sni'):
            d['TlsConnectorBuilder::' + n] = setting(n)
        d['TlsConnectorBuilder::add_root_certificate'] = add
        d['TlsConnectorBuilder::build'] = lambda E, st, c: step(E, st, 'build', c, True)
        d['fs::read_to_string'] = d['fs::read'] = read
        d['Certificate::from_pem'] = pem
        return d

    def path(self, E, st, a):
        E.prove(st, z3.And(self.envset(self.VAR), E.pack(st, val(E, st, a), STR) == self.envval(self.VAR)), 'the file the environment names')

    def bytes_of(self, E, st, v):
        v = val(E, st, v)
        if isinstance(v, z3.ExprRef) and v.sort() == S:
            v = str_bytes(E, st, v)
        return v

    def same_bytes(self, E, st, v, w):
        i = z3.Int('i')
        v, w = self.bytes_of(E, st, v), self.bytes_of(E, st, w)
        return z3.And(v.length() == w.length(), z3.Implies(z3.And(i >= 0, i < w.length()), z3.Select(E.vec_arr(st, v), i) == z3.Select(E.vec_arr(st, w), i)))

    def setup(self, E, st, f):
        return []

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), n)
        ev = lambda k: [e for e in st.trace if e[0] == k]
        if vi == 1:
            P(ev('unreadable') or ev('damaged'), 'an error only if the certificate cannot be read or parsed')
            self.covered['unreadable' if ev('unreadable') else 'damaged'] = True
            return
        P(not ev('unreadable') and not ev('damaged'), 'a certificate that cannot be read or parsed is an error')
        built = ev('build') + ev('plain')
        P(len(built) == 1 and E.pack(st, fs[0], fs[0].ty) == E.pack(st, built[0][2], built[0][2].ty), 'the connector built')
        roots, pems = ev('root'), ev('pem')
        P(z3.BoolVal(len(roots) == 1) == self.envset(self.VAR), 'a certificate is trusted in addition exactly if one is named')
        P(len(roots) <= 1 and len(pems) == len(roots), 'no other')
        if len(roots) == 1 and len(pems) == 1:
            self.covered['certificate'] = True
            P(E.pack(st, roots[0][2], roots[0][2].ty) == E.pack(st, pems[0][2], pems[0][2].ty), 'the certificate read is trusted')
            i = [e[0] for e in st.trace]
            P('build' in i and i.index('root') < i.index('build'), 'before the connector is built')
        else:
            self.covered['plain'] = True


class NewSelf(Contract):
    """ProcessInfo::new_self: each id and name as the call of that name gives it"""
    target = 'procinfo::ProcessInfo::new_self'
    FROM = dict(pid='getpid', ppid='getppid', uid='getuid', euid='geteuid', gid='getgid', egid='getegid', username='get_username', groupname='get_groupname', hostname='get_hostname')

    def overrides(self, E):
        def mk(n):
            return lambda E, st, c: step(E, st, n, c)
        d = {}
        for n in self.FROM.values():
            d['sys::' + n] = d[n] = mk(n)
        return d

    def setup(self, E, st, f):
        return []

    def post(self, E, st, ret):
        t = E.pack(st, ret, PINFO)
        for n, ty in E.db.info(PINFO).fields:
            got = [e[2] for e in st.trace if e[0] == self.FROM.get(n)]
            E.prove(st, z3.Or([z3.BoolVal(False)] + [field(E, PINFO, t, n) == E.pack(st, g, ty) for g in got]), f'{n}: as {self.FROM.get(n)} gives it')


class Id(Contract):
    """sys: the id the call of that name gives"""
    call = None

    def overrides(self, E):
        return {'libc::' + n: (lambda n: lambda E, st, c: step(E, st, n, c))(n) for n in ('getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'getegid')}

    def setup(self, E, st, f):
        return []

    def post(self, E, st, ret):
        got = [e[2] for e in st.trace if e[0] == self.call]
        E.prove(st, z3.Or([z3.BoolVal(False)] + [val(E, st, ret) == val(E, st, g) for g in got]), 'as the call gives it')


HOST_MAX = 64       # the longest host name the kernel keeps (uname(2))


class NameOf(Contract):
    """sys: the name under which the entry of the effective id is known; none exactly if there is no entry"""
    lookup = idcall = None
    covers = ('an entry', 'no entry')
    assumes = ['user and group names are UTF-8 without NUL; the entry getpwuid and getgrgid give stays as it is until the name is copied']

    def overrides(self, E):
        d = {}
        for n in ('getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'getegid'):
            d['libc::' + n] = (lambda n: lambda E, st, c: step(E, st, n, c))(n)

        def look(n):
            def f(E, st, c):
                found = E.decide(st, E.fresh_const(B, 'found'))
                nm = E.fresh_const(S, 'name')
                st.assume(z3.Not(z3.Contains(nm, z3.StringVal('\x00'))))
                st.assume(z3.Function('is_utf8_str', S, B)(nm))
                event(E, st, n, [c.args[0], nm], z3.BoolVal(found))
                entry = Agg(c.dty.args[0], [nm])
                r = E.ref_to(st, entry, c.dty.args[0])
                if not found:
                    st.ghost['null'] = z3.BoolVal(True)
                return r
            return f

        def is_null(E, st, c):
            return st.ghost['null']
        d['libc::getpwuid'] = look('getpwuid')
        d['libc::getgrgid'] = look('getgrgid')
        d['mut_ptr::is_null'] = d['const_ptr::is_null'] = d['ptr::is_null'] = d['is_null'] = is_null
        return d

    def setup(self, E, st, f):
        st.ghost['null'] = z3.BoolVal(False)
        return []

    def post(self, E, st, ret):
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(c), n)
        evs = [e for e in st.trace if e[0] in ('getpwuid', 'getgrgid')]
        P(len(evs) == 1 and evs[0][0] == self.lookup, f'one entry is looked up, by {self.lookup}')
        if len(evs) != 1:
            return
        e = evs[0]
        ids = [x[2] for x in st.trace if x[0] == self.idcall]
        P(z3.Or([z3.BoolVal(False)] + [val(E, st, x) == val(E, st, e[1][0]) for x in ids]), f'that of {self.idcall}')
        _, _, vi, fs = variant(E, st, ret)
        P(z3.BoolVal(vi == 1) == e[2], 'a name exactly if there is an entry')
        self.covered['an entry' if vi == 1 else 'no entry'] = True
        if vi == 1:
            P(val(E, st, fs[0]) == e[1][1], 'the name of the entry')


class GetUsername(NameOf):
    """sys::get_username: the name of the entry of the effective uid; none exactly if it has none"""
    target = 'sys::get_username'
    lookup, idcall = 'getpwuid', 'geteuid'


class GetGroupname(NameOf):
    """sys::get_groupname: the name of the entry of the effective gid; none exactly if it has none"""
    target = 'sys::get_groupname'
    lookup, idcall = 'getgrgid', 'getegid'


class GetHostname(Contract):
    """sys::get_hostname: the whole host name, however long the kernel lets it be"""
    target = 'sys::get_hostname'
    covers = ('name',)
    assumes = [f'the host name is UTF-8 of at most {HOST_MAX} bytes without NUL; gethostname gives it with a NUL after it if both fit, and otherwise fails']

    def overrides(self, E):
        def gethostname(E, st, c):
            ref, n = c.args[0], c.args[1]
            v = E.load_ref(st, ref)
            E.prove(st, z3.And(n >= 0, n <= v.length()), 'no more room than the buffer has')
            if not E.decide(st, n >= self.n + 1):
                event(E, st, 'gethostname', [], z3.IntVal(-1))
                return z3.IntVal(-1)
            arr = E.fresh_const(z3.ArraySort(I, I), 'buf')
            j = z3.Int('j!host')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.Select(arr, j) == z3.Select(self.name, j)), patterns=[z3.Select(arr, j)]))
            st.assume(z3.Select(arr, self.n) == 0)
            E.store_addr(st, ref.root, ref.path, VecV(U8, n=v.length(), arr=arr))
            event(E, st, 'gethostname', [], z3.IntVal(0))
            return z3.IntVal(0)

        def utf8(E, st, c):
            v = val(E, st, c.args[0])
            same = self.is_name(E, st, v)
            if not same and not E.decide(st, E.fresh_const(B, 'utf8')):
                return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'utf8err')], 1)
            r = self.text if same else E.fresh_const(S, 'other')
            return Agg(c.dty, [r if c.dty.args[0].kind != 'ref' else E.str_ref(st, r)], 0)

        def lossy(E, st, c):
            v = val(E, st, c.args[0])
            r = self.text if self.is_name(E, st, v) else E.fresh_const(S, 'other')
            return Agg(Ty('adt', 'Cow', [STR]), [E.str_ref(st, r)], 0)
        d = {'libc::gethostname': gethostname, 'String::from_utf8': utf8, 'str::from_utf8': utf8, 'String::from_utf8_lossy': lossy}
        return d

    def is_name(self, E, st, v):
        j = E.fresh_const(I, 'j')
        return E.valid(st, z3.And(v.length() == self.n, z3.Implies(z3.And(j >= 0, j < self.n), z3.Select(v.arr, j) == z3.Select(self.name, j))))[0] == "proved"

    def setup(self, E, st, f):
        self.text = E.fresh_const(S, 'hostname')
        self.n = E.fresh_const(I, 'len')
        self.name = E.fresh_const(z3.ArraySort(I, I), 'bytes')
        j = z3.Int('j!name')
        st.assume(z3.And(self.n >= 0, self.n <= HOST_MAX))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(z3.Select(self.name, j) >= 1, z3.Select(self.name, j) <= 255)),
                            patterns=[z3.Select(self.name, j)]))
        return []

    def post(self, E, st, ret):
        self.covered['name'] = True
        E.prove(st, val(E, st, ret) == self.text, 'the whole host name')


for _n in ('getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'getegid'):
    globals()['Id_' + _n] = type('Id_' + _n, (Id,), dict(target='sys::' + _n, call=_n, __doc__=f'sys::{_n}: what {_n}(2) gives', __module__=__name__))

CONTRACTS = [TlsConnector, NewSelf, GetUsername, GetGroupname, GetHostname] + [globals()['Id_' + n] for n in ('getpid', 'getppid', 'getuid', 'geteuid', 'getgid', 'getegid')]
