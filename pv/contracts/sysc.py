"""System-call wrappers: arguments passed through, and success/failure told apart, for every result the kernel can give."""
from ..contract import *
from ..std import *

OSERR = lambda E: z3.Function('os_error', I, E.sort(IOERR))


def RUSAGE(E):
    return parse_ty('libc::rusage')


class Wrapper(Contract):
    """base: `call` is the system call, `nargs` says which arguments are passed through unchanged"""
    call = None
    any_libc = True          # any other system call returns anything
    passed = ()              # indexes of the wrapper's parameters, in system-call argument order (None: not a parameter)
    assumes = ['a failing system call returns -1 and leaves its error number; a succeeding one returns a value its manual page allows']
    covers = ('success', 'failure')

    def setup(self, E, st, f):
        self.args = []
        for a in f.args:
            t = f.locals[a]
            if t.kind == 'ref':
                v = E.fresh(st, t.args[0], 'a')
                self.args.append(v)
            else:
                v = E.fresh(st, t, 'a')
                self.args.append(v)
                if t.is_int():
                    st.assume(E.in_range(v, t.name))
        self.tys = [f.locals[a] for a in f.args]
        return [E.ref_to(st, v, t.args[0], True) if t.kind == 'ref' else v for v, t in zip(self.args, self.tys)]

    def calls(self, st, name=None):
        return [e for e in st.trace if e[0] == (name or self.call)]

    def expect_arg(self, E, st, ev, i):
        """term the i-th system-call argument must equal, or None"""
        if i < len(self.passed) and self.passed[i] is not None:
            return self.args[self.passed[i]]
        return None

    def no_call(self, E, st, ret):
        """no system call at all: acceptable?"""
        return z3.BoolVal(False)

    def succeeded(self, E, st, ev, ret, payload):
        return z3.BoolVal(True)

    def failed(self, E, st, ev, ret, e):
        return e.term == OSERR(E)(st.ghost['errno'])

    def post(self, E, st, ret):
        evs = self.calls(st)
        if not evs:
            E.prove(st, self.no_call(E, st, ret), 'the call is made')
            return
        E.prove(st, z3.BoolVal(len(evs) == 1), 'the call is made exactly once')
        ev = evs[-1]
        for i in range(len(self.passed)):
            w = self.expect_arg(E, st, ev, i)
            if w is not None:
                E.prove(st, eq_val(E, st, ev[3][i], w), f'argument {i} is passed unchanged')
        vi, fs = self.result(E, st, ret)
        r = ev[2]
        E.prove(st, z3.BoolVal(vi == 0) == self.is_success(E, st, ev), 'success exactly if the call succeeded')
        self.covered['success' if vi == 0 else 'failure'] = True
        if vi == 0:
            E.prove(st, self.succeeded(E, st, ev, r, fs[0]), 'the result is the one of the call')
        else:
            E.prove(st, self.failed(E, st, ev, r, fs[0]), 'the error is the one of the call')

    def is_success(self, E, st, ev):
        return ev[2] != -1

    def result(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        return vi, fs


def wrap(fn, call, passed, same=False, **kw):
    d = dict(target='sys::' + fn, call=call, passed=passed, __doc__=f'{fn}: one {call} call with the given arguments; its failure and only its failure is an error', **kw)
    if same:
        d['succeeded'] = lambda self, E, st, ev, r, p: p == r
    return type('W_' + fn, (Wrapper,), d)


W_close = wrap('close', 'close', (0,))
W_dup2 = wrap('dup2', 'dup2', (0, 1))


class W_dup2(W_dup2):
    # dup2 returns the new descriptor when it succeeds
    def overrides(self, E):
        def dup2(E, st, c):
            r = libc_call('dup2')(E, st, c)
            st.assume(z3.Or(r == -1, r == c.args[1]))
            st.assume(z3.Implies(c.args[1] < 0, r == -1))
            return r
        return {'libc::dup2': dup2}


class W_close(W_close):
    def overrides(self, E):
        return {'libc::close': libc_call('close', -1, 0)}


W_fork = wrap('fork', 'fork', (), same=True)


class W_setsid(wrap('setsid', 'setsid', (), same=True)):
    pass


W_fcntl_getfd = wrap('fcntl_getfd', 'fcntl', (0, None), same=True)
W_fcntl_setfd = wrap('fcntl_setfd', 'fcntl', (0, None, 1))


class W_fcntl_getfd(W_fcntl_getfd):
    def post(self, E, st, ret):
        super().post(E, st, ret)
        for ev in self.calls(st):
            E.prove(st, ev[1][1] == 1, 'F_GETFD')       # from fcntl.h


class W_fcntl_setfd(W_fcntl_setfd):
    def post(self, E, st, ret):
        super().post(E, st, ret)
        for ev in self.calls(st):
            E.prove(st, ev[1][1] == 2, 'F_SETFD')


class W_dup_above(wrap('dup_above', 'fcntl', (0, None, 1), same=True)):
    def post(self, E, st, ret):
        super().post(E, st, ret)
        for ev in self.calls(st):
            E.prove(st, ev[1][1] == 1030, 'F_DUPFD_CLOEXEC')


class W_open(wrap('open', 'open', (0, 1, 2), same=True)):
    covers = ('success', 'failure', 'nul')
    assumes = Wrapper.assumes + ['paths passed to open come from Rust strings']

    def setup(self, E, st, f):
        a = super().setup(E, st, f)
        st.assume(z3.Function('is_utf8_str', S, B)(self.args[0]))
        return a

    def no_call(self, E, st, ret):
        vi, _ = self.result(E, st, ret)
        self.covered['nul'] = True
        return z3.And(z3.BoolVal(vi == 1), z3.Contains(self.args[0], z3.StringVal('\x00')))


class W_pipe(wrap('pipe', 'pipe', ())):
    def overrides(self, E):
        def pipe(E, st, c):
            r = E.fresh_const(I, 'pipe')
            st.assume(z3.Or(r == -1, r == 0))
            errno_after(E, st)
            pipe_out(E, st, c, r)
            self.ends = E.load_ref(st, c.args[0]).items
            event(E, st, 'pipe', list(self.ends), r)
            return r
        return {'libc::pipe': pipe}

    def succeeded(self, E, st, ev, r, p):
        info = E.db.info(p.ty)
        a = E.explode(st, p) if not isinstance(p, Agg) else p
        fs = dict(zip([n for n, _ in info.fields], a.fields))
        return z3.And(fs['read'] == ev[1][0], fs['write'] == ev[1][1])


class W_read(wrap('read', 'read', (0,), same=True)):
    """read: at most the buffer's length is requested, into the buffer's start"""

    def post(self, E, st, ret):
        super().post(E, st, ret)
        for ev in self.calls(st):
            E.prove(st, ev[1][2] == self.args[1].length(), 'the whole buffer is offered')


class W_write(wrap('write', 'write', (0,), same=True)):
    """write: exactly the given bytes are offered"""

    def post(self, E, st, ret):
        super().post(E, st, ret)
        for ev in self.calls(st):
            E.prove(st, ev[1][2] == self.args[1].length(), 'all bytes are offered')
            E.prove(st, eq_val(E, st, ev[3][1], self.args[1]), 'the bytes are the given ones')


class W_kill(wrap('kill', 'kill', (0, 1))):
    covers = ('success', 'failure', 'no process')

    def overrides(self, E):
        return {'libc::kill': libc_call('kill', -1, 0)}

    def failed(self, E, st, ev, ret, e):
        en = st.ghost['errno']
        if E.feasible(st, en == 3):
            self.covered['no process'] = True
        # a missing process is told apart by the kind of the error
        return z3.And((kind_of(E, e.term) == errkind(E, 'NotFound')) == z3.Or(en == 3, en == 2),
                      z3.Implies(en != 3, e.term == OSERR(E)(en)))


class W_fstat(wrap('fstat', 'fstat', (0,))):
    pass


class W_wait4(wrap('wait4', 'wait4', (0,))):
    """wait4: waits for the given pid, without blocking unless asked to; reports the kernel's pid, status and usage"""
    covers = ('success', 'failure', 'nothing')

    def succeeded(self, E, st, ev, r, p):
        _, _, vi, fs = variant(E, st, p)
        blk = as_bool(simp(self.args[1]))
        if vi == 0:
            self.covered['nothing'] = True
            return r == 0
        t = fs[0]
        t = t if isinstance(t, Agg) else E.explode(st, t)
        # the out-parameters as the kernel left them
        return z3.And(r != 0, t.fields[0] == r, t.fields[1] == st.ghost['w_status'], eq_val(E, st, t.fields[2], st.ghost['w_usage']))

    def overrides(self, E):
        def w4(E, st, c):
            r = libc_call('wait4', -1, INTS['i32'][1], wait4_out)(E, st, c)
            st.ghost['w_status'] = E.load_ref(st, c.args[1])
            st.ghost['w_usage'] = E.load_ref(st, c.args[3])
            return r
        return {'libc::wait4': w4}

    def post(self, E, st, ret):
        super().post(E, st, ret)
        for ev in self.calls(st):
            E.prove(st, ev[1][2] == z3.If(self.args[1], z3.IntVal(0), z3.IntVal(1)), 'WNOHANG exactly if not blocking')


CONTRACTS = [W_close, W_dup2, W_dup_above, W_fork, W_setsid, W_fcntl_getfd, W_fcntl_setfd, W_open, W_pipe, W_read, W_write, W_kill, W_fstat, W_wait4]


class W_mkstemp(Wrapper):
    """mkstemp: the template is passed, and the returned path is the name the kernel filled in for the returned descriptor"""
    target = 'sys::mkstemp'
    call = 'mkstemp'
    covers = ('success', 'failure', 'nul')
    assumes = Wrapper.assumes + ['mkstemp replaces the template in place by the name it created, which is UTF-8 if the template is']

    def overrides(self, E):
        def mk(E, st, c):
            ref = c.args[0]
            r = libc_call('mkstemp')(E, st, c)
            nm = E.fresh_const(S, 'name')
            st.assume(z3.Not(z3.Contains(nm, z3.StringVal('\x00'))))
            st.assume(z3.Function('is_utf8_str', S, B)(nm))
            E.store_addr(st, ref.root, ref.path, nm)
            st.ghost['name'] = nm
            return r
        return {'libc::mkstemp': mk}

    def expect_arg(self, E, st, ev, i):
        return self.args[0]
    passed = (0,)

    def no_call(self, E, st, ret):
        vi, _ = self.result(E, st, ret)
        self.covered['nul'] = True
        return z3.And(z3.BoolVal(vi == 1), z3.Contains(self.args[0], z3.StringVal('\x00')))

    def succeeded(self, E, st, ev, r, p):
        t = p if isinstance(p, Agg) else E.explode(st, p)
        return z3.And(val(E, st, t.fields[0]) == st.ghost['name'], t.fields[1] == r)


class W_execve(Wrapper):
    """execve: called exactly once with the given program, the given arguments in order and NAME=value for exactly the given
    variables, each list null-terminated; or not at all, with an error, if a string contains NUL"""
    target = 'sys::execve'
    call = 'execve'
    covers = ('failure', 'nul')
    env = True
    assumes = Wrapper.assumes + ['raw pointers handed to the kernel are modelled by the strings they point at; their lifetime is not modelled']

    def setup(self, E, st, f):
        self.i = z3.Int('arg_i')
        self.probes = [self.i]
        return super().setup(E, st, f)

    def overrides(self, E):
        return {'libc::' + self.call: libc_call(self.call, -1, -1)}

    def loop_inv(self, L):
        if not self.env:
            return {}
        out = {}
        E, m, k = L.E, self.args[2], self.i
        pair = z3.Concat(z3.Select(m.key, k), z3.StringVal('='), z3.Select(m.val, z3.Select(m.key, k)))
        for vk in L.values(VecV):
            for ik in L.iters():
                out[f'env{vk[1]} idx{ik[1]}'] = lambda st, vk=vk, ik=ik: z3.Implies(z3.And(k >= 0, k < L.get(st, ik)), z3.Select(E.vec_arr(st, L.get(st, vk)), k) == pair)
        return out

    def ptrs(self, E, st, ev, i, n, elem, what):
        v = ev[3][i]
        E.prove(st, v.length() == n + 1, f'{what}: one pointer per string and a terminator')
        arr = E.vec_arr(st, v)
        E.prove(st, z3.Select(arr, n) == NULL, f'{what}: null-terminated')
        k = self.i
        E.prove(st, z3.Implies(z3.And(k >= 0, k < n), z3.Select(arr, k) == elem(k)), f'{what}: every string, in order')

    def post(self, E, st, ret):
        evs = self.calls(st)
        vi, fs = self.result(E, st, ret)
        E.prove(st, z3.BoolVal(vi == 1), 'returns only with an error')
        if not evs:
            self.covered['nul'] = True
            E.prove(st, z3.BoolVal(True), 'no exec')
            return
        E.prove(st, z3.BoolVal(len(evs) == 1), 'the call is made exactly once')
        ev = evs[0]
        self.covered['failure'] = True
        E.prove(st, ev[3][0] == self.args[0], 'the program is the given one')
        av = self.args[1]
        arr = E.vec_arr(st, av)
        self.ptrs(E, st, ev, 1, av.length(), lambda k: z3.Select(arr, k), 'arguments')
        if self.env:
            m = self.args[2]
            key = lambda k: z3.Select(m.key, k)
            self.ptrs(E, st, ev, 2, m.size, lambda k: z3.Concat(key(k), z3.StringVal('='), z3.Select(m.val, key(k))), 'environment')
        E.prove(st, self.failed(E, st, ev, None, fs[0]), 'the error is the one of the call')


class W_execv(W_execve):
    """execv: as execve, with the inherited environment"""
    target = 'sys::execv'
    call = 'execv'
    env = False
CONTRACTS += [W_mkstemp, W_execve, W_execv]


class W_set_cloexec(Contract):
    """set_cloexec: on success close-on-exec is set and every other flag unchanged; a failure of either call is reported"""
    target = 'sys::set_cloexec'
    covers = ('already', 'set', 'getfd fails', 'setfd fails')
    assumes = Wrapper.assumes

    def setup(self, E, st, f):
        self.fd = z3.Int('fd')
        st.assume(E.in_range(self.fd, 'i32'))
        return [self.fd]

    def overrides(self, E):
        return {'libc::fcntl': libc_call('fcntl')}

    def post(self, E, st, ret):
        evs = [e for e in st.trace if e[0] == 'fcntl']
        _, _, vi, fs = variant(E, st, ret)
        g = evs[0]
        E.prove(st, z3.And(g[1][0] == self.fd, g[1][1] == 1), 'reads the flags of the descriptor')
        bit = lambda x: z3.Function('bit_and', I, I, I)(x, 1)
        if len(evs) == 1:
            ok = vi == 0
            self.covered['already' if ok else 'getfd fails'] = True
            if ok:
                E.prove(st, z3.And(g[2] >= 0, g[2] % 2 == 1), 'nothing to do only if already set')
            else:
                E.prove(st, z3.And(g[2] == -1, fs[0].term == OSERR(E)(st.ghost['errno'])), 'the error is the one of the call')
            return
        E.prove(st, z3.BoolVal(len(evs) == 2), 'at most one change')
        s = evs[1]
        E.prove(st, z3.And(g[2] >= 0, s[1][0] == self.fd, s[1][1] == 2), 'sets the flags of the descriptor')
        E.prove(st, z3.And(s[1][2] % 2 == 1, s[1][2] / 2 == g[2] / 2), 'sets exactly the close-on-exec flag')
        E.prove(st, z3.BoolVal(vi == 0) == (s[2] != -1), 'success exactly if the flags were set')
        if vi == 1:
            self.covered['setfd fails'] = True
            E.prove(st, fs[0].term == OSERR(E)(st.ghost['errno']), 'the error is the one of the call')
        else:
            self.covered['set'] = True


class W_get_file_length(Contract):
    """get_file_length: the size fstat reports, or its error"""
    target = 'sys::get_file_length'
    covers = ('success', 'failure')
    assumes = Wrapper.assumes

    def setup(self, E, st, f):
        self.fd = z3.Int('fd')
        st.assume(E.in_range(self.fd, 'i32'))
        return [self.fd]

    def overrides(self, E):
        def fs(E, st, c):
            r = TABLE['libc::fstat'](E, st, c)
            self.stat = st.ghost['stat'] = E.load_ref(st, c.args[1])
            return r
        return {'libc::fstat': fs}

    def post(self, E, st, ret):
        evs = [e for e in st.trace if e[0] == 'fstat']
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, z3.And(z3.BoolVal(len(evs) == 1), evs[0][1][0] == self.fd), 'asks about the given descriptor')
        E.prove(st, z3.BoolVal(vi == 0) == (evs[0][2] != -1), 'success exactly if the call succeeded')
        self.covered['success' if vi == 0 else 'failure'] = True
        if vi == 0:
            E.prove(st, fs[0] == self.size(E, st), 'the size is the one the kernel reported')
        else:
            E.prove(st, fs[0].term == OSERR(E)(st.ghost['errno']), 'the error is the one of the call')

    def size(self, E, st):
        s = st.ghost['stat']
        return E.opaque_field(s, 8, I)     # struct stat's st_size


class W_wait(Contract):
    """wait: given an unreaped child, waits for exactly that pid; reports it once it was reaped, with the kernel's status and usage;
    nothing only if not blocking and the child still runs or the wait was interrupted"""
    target = 'sys::wait'
    covers = ('reaped', 'nothing', 'interrupted')
    assumes = ['wait4 for an unreaped child of this process returns its pid, 0 (only if not blocking), or fails with EINTR']

    def setup(self, E, st, f):
        self.pid, self.block = z3.Int('pid'), z3.Bool('block')
        st.assume(z3.And(E.in_range(self.pid, 'i32'), self.pid > 0))
        st.ghost['reaped'] = st.ghost['last'] = z3.IntVal(0)
        st.ghost['w_status'] = z3.IntVal(0)
        st.ghost['errno'] = z3.IntVal(0)
        st.ghost['w_usage'] = E.fresh(st, RUSAGE(E), 'usage0')
        return [self.pid, self.block]

    def overrides(self, E):
        def w4(E, st, c):
            E.prove(st, c.args[0] == self.pid, 'waits for the given pid only')
            E.prove(st, c.args[2] == z3.If(self.block, z3.IntVal(0), z3.IntVal(1)), 'WNOHANG exactly if not blocking')
            E.prove(st, st.ghost['reaped'] == 0, 'never waits again after reaping')
            r = libc_call('wait4', -1, INTS['i32'][1], wait4_out)(E, st, c)
            st.assume(z3.Or(r == -1, r == 0, r == self.pid))
            st.assume(z3.Implies(self.block, r != 0))
            st.assume(z3.Implies(r == -1, st.ghost['errno'] == 4))
            st.ghost['w_status'] = E.load_ref(st, c.args[1])
            st.ghost['w_usage'] = E.load_ref(st, c.args[3])
            st.ghost['reaped'] = z3.If(r == self.pid, z3.IntVal(1), z3.IntVal(0))
            st.ghost['last'] = r
            return r
        return {'libc::wait4': w4}

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, z3.BoolVal(vi == 1) == (st.ghost['reaped'] == 1), 'reported exactly if reaped')
        if vi == 1:
            self.covered['reaped'] = True
            t = fs[0] if isinstance(fs[0], Agg) else E.explode(st, fs[0])
            E.prove(st, z3.And(t.fields[0] == self.pid, t.fields[1] == st.ghost['w_status'], eq_val(E, st, t.fields[2], st.ghost['w_usage'])),
                    'pid, status and usage are the kernel\'s')
        else:
            E.prove(st, z3.Not(self.block), 'a blocking wait reports')
            for n, c in (('nothing', st.ghost['last'] == 0), ('interrupted', st.ghost['last'] == -1)):
                if E.feasible(st, c):
                    self.covered[n] = True


CONTRACTS += [W_set_cloexec, W_get_file_length, W_wait]
