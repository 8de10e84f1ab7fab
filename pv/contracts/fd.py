"""File descriptors of a process: what each handler does before the fork, in the parent and in the child."""
from ..contract import *
from ..std import *
from .. import kernel

FDH = Ty('adt', 'fd::FdHandler')
SFH = Ty('adt', 'fd::SharedFdHandler')


class H:
    """symbolic FdHandler: recognisers and fields by name"""

    def __init__(self, E, v):
        self.E, self.v = E, v
        self.info = E.db.info(FDH)
        self.vi = {x[0]: i for i, x in enumerate(self.info.variants)}
        self.s = E.sort(FDH)
        self.t = v.term

    def is_(self, n):
        return self.s.recognizer(self.vi[n])(self.t)

    def f(self, var, name):
        fs = [n for n, _ in self.info.variants[self.vi[var]][2]]
        return self.s.accessor(self.vi[var], fs.index(name))(self.t)

    def ftype(self, var, name):
        return dict(self.info.variants[self.vi[var]][2])[name]


PRIVATE = {'UnlinkedFile': ('file_fd',), 'CaptureMemory': ('read_fd', 'write_fd'), 'PipeWrite': ('pipe_write_fd',), 'PipeRead': ('pipe_read_fd',)}
SOURCE = {'UnlinkedFile': 'file_fd', 'CaptureMemory': 'write_fd', 'PipeWrite': 'pipe_write_fd', 'PipeRead': 'pipe_read_fd', 'Dup': 'dup_fd'}


def res_variant(E, st, ret):
    _, a, vi, fs = variant(E, st, ret)
    return vi, fs


class HandlerBase(Contract):
    assumes = kernel.ASSUMES

    def overrides(self, E):
        return dict(kernel.OVERRIDES)

    def rc_unique(self, E, st, v):
        return z3.BoolVal(True)

    def setup(self, E, st, f):
        kernel.install(st)
        self.T0 = st.ghost['fdt']
        self.q = z3.Int('q')
        st.assume(z3.Select(self.T0, self.q) >= 0)
        p = z3.Int('handler_ptr')
        st.assume(p >= 0)
        self.ptr = p
        v = E.load_ref(st, RefV(('h', FDH, p)))
        self.h = H(E, v)
        h = self.h
        T = lambda x: z3.Select(self.T0, x)
        i32 = lambda x: E.in_range(x, 'i32')
        for var, i in h.vi.items():
            for n, t in h.info.variants[i][2]:
                if t.is_int():
                    st.assume(z3.Implies(h.is_(var), E.in_range(h.f(var, n), t.name)))
        for var, ns in PRIVATE.items():
            for n in ns:
                st.assume(z3.Implies(h.is_(var), z3.And(h.f(var, n) >= 0, T(h.f(var, n)) > 0)))
        st.assume(z3.Implies(h.is_('CaptureMemory'), h.f('CaptureMemory', 'read_fd') != h.f('CaptureMemory', 'write_fd')))
        st.assume(z3.Function('is_utf8_str', S, B)(h.f('UnmanagedFile', 'path')))
        st.assume(z3.Implies(h.is_('UnmanagedFile'), z3.Not(kernel.o_cloexec(h.f('UnmanagedFile', 'oflags')))))
        for var, ns in PRIVATE.items():
            for n in ns:
                # made without close-on-exec; moved with it, away from the target
                st.assume(z3.Implies(z3.And(h.is_(var), h.f(var, n) == h.f(var, 'fd')), z3.Not(z3.Select(st.ghost['cx'], h.f(var, n)))))
        self.vt = v
        a = Agg(SFH, [RcV(FDH, p)])
        return [a if f.locals[f.args[0]].kind != 'ref' else E.ref_to(st, a, SFH)]


class InChild(HandlerBase):
    """in the child, the target descriptor ends up on the object the handler stands for, private descriptors are gone and no other
    descriptor changes"""
    target = 'fd::SharedFdHandler::in_child'
    assumes = kernel.ASSUMES + ['fd handler invariant: private descriptors of a handler are open and distinct, and a private descriptor that is the target is not close-on-exec (established by make_fd_handler, kept by avoid_fds)',
                                'fd handler invariant: the path of a file handler comes from a Rust string',
                                'in_child is given the only reference to the handler (start_procs consumes the handler list in the child)']
    covers = ('Inherit', 'Close', 'Dup', 'UnmanagedFile', 'UnlinkedFile', 'CaptureMemory', 'PipeWrite', 'PipeRead')

    def post(self, E, st, ret):
        vi, _ = res_variant(E, st, ret)
        h, T0, T = self.h, self.T0, st.ghost['fdt']
        E.prove(st, z3.Implies(h.is_('Error'), z3.BoolVal(vi == 1)), 'a failed handler fails the child')
        if vi == 1:
            return
        q = self.q
        for var in self.covers:
            c = h.is_(var)
            if not E.feasible(st, c):
                continue
            self.covered[var] = True
            if var == 'Inherit':
                E.prove(st, z3.Implies(c, z3.Select(T, q) == z3.Select(T0, q)), 'inherit leaves every descriptor alone')
                continue
            fd = h.f(var, 'fd')
            priv = [h.f(var, n) for n in PRIVATE.get(var, ())]
            if var == 'Close':
                E.prove(st, z3.Implies(c, z3.Select(T, fd) == 0), 'close closes the descriptor')
            elif var == 'UnmanagedFile':
                op = st.ghost.get('opened', ())
                E.prove(st, z3.Implies(c, len(op) == 1), 'file: opened exactly once')
                if len(op) == 1:
                    args, _, d = op[0]
                    path = args[0]
                    E.prove(st, z3.Implies(c, z3.And(path == h.f(var, 'path'), args[1] == h.f(var, 'oflags'), args[2] == h.f(var, 'mode'))),
                            'file: opened with its path, flags and mode')
                    E.prove(st, z3.Implies(c, z3.Select(T, fd) == d), 'file: descriptor is the opened file')
            else:
                E.prove(st, z3.Implies(c, z3.Select(T, fd) == z3.Select(T0, h.f(var, SOURCE[var]))), f'{var}: descriptor is attached to its source')
            if var not in ('Close', 'Dup'):
                E.prove(st, z3.Implies(c, z3.Not(z3.Select(st.ghost['cx'], fd))), f'{var}: the descriptor survives exec')
            elif var == 'Dup':
                E.prove(st, z3.Implies(z3.And(c, fd != h.f(var, 'dup_fd')), z3.Not(z3.Select(st.ghost['cx'], fd))), 'Dup: the descriptor survives exec')
            for p in priv:
                E.prove(st, z3.Implies(z3.And(c, p != fd), z3.Select(T, p) == 0), f'{var}: private descriptors are closed in the child')
            opened = [x[1] for x in st.ghost.get('opened', ())]
            E.prove(st, z3.Implies(z3.And(c, q != fd, *[q != p for p in priv]), z3.Select(T, q) == z3.Select(T0, q)), f'{var}: no other descriptor changes')


class InParent(HandlerBase):
    """in the parent, exactly the child's end of a pipe is closed, and memory capture starts exactly one drain task"""
    target = 'fd::SharedFdHandler::in_parent'
    covers = ('CaptureMemory', 'PipeWrite', 'PipeRead', 'UnlinkedFile')

    def post(self, E, st, ret):
        vi, fs = res_variant(E, st, ret)
        h, T0, T, q = self.h, self.T0, st.ghost['fdt'], self.q
        child_end = {'CaptureMemory': 'write_fd', 'PipeWrite': 'pipe_write_fd', 'PipeRead': 'pipe_read_fd'}
        for var in h.vi:
            c = h.is_(var)
            if not E.feasible(st, c):
                continue
            if var in self.covers:
                self.covered[var] = True
            spawns = [e for e in st.trace if e[0] == 'spawn']
            E.prove(st, z3.Implies(c, vi == 0), f'{var}: the parent side succeeds')
            E.prove(st, z3.Implies(c, len(spawns) == (1 if var == 'CaptureMemory' else 0)), f'{var}: drain task')
            if var in child_end:
                p = h.f(var, child_end[var])
                E.prove(st, z3.Implies(c, z3.Select(T, p) == 0), f"{var}: the child's end is closed in the parent")
                E.prove(st, z3.Implies(z3.And(c, q != p), z3.Select(T, q) == z3.Select(T0, q)), f'{var}: no other descriptor changes')
            else:
                E.prove(st, z3.Implies(c, z3.Select(T, q) == z3.Select(T0, q)), f'{var}: no descriptor changes')
            if vi == 0:
                _, _, ovi, _ = variant(E, st, fs[0])
                E.prove(st, z3.Implies(c, ovi == (1 if var == 'CaptureMemory' else 0)), f'{var}: a task exactly for memory capture')


class HandlerDrop(HandlerBase):
    """when a handler goes away, exactly its capture file is closed, and nothing else"""
    target = 'fd::FdHandler::drop'
    covers = ('UnlinkedFile', 'other')

    def find(self, E):
        # the impl of Drop, if there is one (else dropping closes nothing)
        for (ty, tr, name), c in E.methods.items():
            if name == 'drop' and len(c) == 1:
                f = E.load(c[0][0])
                if f is not None and f.args and 'FdHandler' in str(f.locals[f.args[0]]) and 'Shared' not in str(f.locals[f.args[0]]):
                    return f
        raise LostAnchor('Drop of fd::FdHandler')

    def setup(self, E, st, f):
        super().setup(E, st, f)
        return [RefV(('h', FDH, self.ptr))]

    def post(self, E, st, ret):
        h, T0, T, q = self.h, self.T0, st.ghost['fdt'], self.q
        c = h.is_('UnlinkedFile')
        if E.feasible(st, c):
            self.covered['UnlinkedFile'] = True
            p = h.f('UnlinkedFile', 'file_fd')
            E.prove(st, z3.Implies(c, z3.Select(T, p) == 0), 'the capture file is closed')
            E.prove(st, z3.Implies(z3.And(c, q != p), z3.Select(T, q) == z3.Select(T0, q)), 'only the capture file is closed')
        if E.feasible(st, z3.Not(c)):
            self.covered['other'] = True
            E.prove(st, z3.Implies(z3.Not(c), z3.Select(T, q) == z3.Select(T0, q)), 'no other handler closes anything')


def avoid_contract(self, E, st, c):
    """contract of fd::avoid_fds, for its callers"""
    ref = c.args[0]
    fd = val(E, st, ref)
    m = val(E, st, c.args[1])
    E.prove(st, z3.And(fd >= 0, z3.Select(st.ghost['fdt'], fd) > 0), 'the descriptor to move is open')
    E.prove(st, z3.And(m.has == self.fds.has), 'out of the way of all of the fds')
    if E.decide(st, E.fresh_const(B, 'avoid_fails')):
        return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'avoid_err')], 1)
    if E.decide(st, z3.Select(m.has, fd)):
        r = kernel.newfd(E, st, 'moved_fd')
        st.assume(z3.Not(z3.Select(m.has, r)))
        kernel.setfd(st, r, z3.Select(st.ghost['fdt'], fd))
        kernel.setcx(st, r, True)
        kernel.setfd(st, fd, z3.IntVal(0))
        E.store_addr(st, ref.root, ref.path, r)
    return Agg(c.dty, [unit()], 0)


class AvoidFds(Contract):
    """avoid_fds: on success the descriptor is none of the given ones, refers to the same file, close-on-exec if it moved, and no other
    descriptor changed"""
    target = 'fd::avoid_fds'
    assumes = kernel.ASSUMES
    covers = ('stays', 'moved', 'error')

    def overrides(self, E):
        d = dict(kernel.OVERRIDES)

        def fcntl(E, st, c):
            # what holds of every descriptor not touched yet holds of the one found
            r = kernel.k_fcntl(E, st, c)
            for k in st.univ:
                st.assume(z3.substitute(k, (self.q, r)))
            return r
        d['libc::fcntl'] = fcntl
        return d

    def setup(self, E, st, f):
        kernel.install(st)
        self.T0, self.C0 = st.ghost['fdt'], st.ghost['cx']
        self.q = z3.Int('q')
        st.assume(z3.Select(self.T0, self.q) >= 0)
        self.fd0 = z3.Int('fd')
        st.assume(z3.And(self.fd0 >= 0, self.fd0 <= 1 << 30, z3.Select(self.T0, self.fd0) > 0))
        ty = f.locals[f.args[0]].args[0]
        self.ref = E.ref_to(st, self.fd0, ty, True) if ty.name == 'i32' else None
        st_ = f.locals[f.args[1]].args[0]
        self.fds = E.fresh(st, st_, 'fds')
        self.probes = [self.q]
        return [self.ref, E.ref_to(st, self.fds, st_)]

    def cur(self, E, st):
        return val(E, st, E.load_ref(st, self.ref))

    def facts(self, E, st):
        fd, q, T, T0 = self.cur(E, st), self.q, st.ghost['fdt'], self.T0
        s = lambda a, i: z3.Select(a, i)
        return [('same file', s(T, fd) == s(T0, self.fd0)),
                ('nothing else', z3.Implies(z3.And(q != fd, q != self.fd0), s(T, q) == s(T0, q))),
                ('moved', z3.And(fd >= self.fd0, fd <= 1 << 30, z3.Implies(fd != self.fd0, z3.And(s(T, self.fd0) == 0, s(T0, fd) == 0, s(st.ghost['cx'], fd))))),
                ('flags', z3.Implies(z3.And(q != fd, s(T, q) > 0), s(st.ghost['cx'], q) == s(self.C0, q))),
                ('own flags', z3.Implies(fd == self.fd0, s(st.ghost['cx'], fd) == s(self.C0, fd)))]

    def generalise(self, n):
        return n == 'nothing else'

    def loop_inv(self, L):
        E = L.E
        return {n: (lambda st, i=i: self.facts(E, st)[i][1]) for i, (n, _) in enumerate(self.facts(E, L.entry))}

    def post(self, E, st, ret):
        vi, _ = res_variant(E, st, ret)
        fd = self.cur(E, st)
        if vi == 0:
            self.covered['stays'] |= E.feasible(st, fd == self.fd0)
            self.covered['moved'] |= E.feasible(st, fd != self.fd0)
            E.prove(st, z3.Not(z3.Select(self.fds.has, fd)), 'none of the given ones')
            for n, c in self.facts(E, st):
                E.prove(st, c, n)
        else:
            self.covered['error'] = True
            E.prove(st, z3.Or([z3.BoolVal(False)] + [e[2] == -1 for e in st.trace if e[0] in ('fcntl', 'close')]), 'an error only if a call failed')


class HandlerAvoid(HandlerBase):
    """avoid_fds of a handler: on success no private descriptor is one of the given ones, each still refers to its file, and nothing else
    about the handler or the descriptors changed"""
    target = 'fd::SharedFdHandler::avoid_fds'
    covers = ('ok', 'error')
    assumes = kernel.ASSUMES + ['fd::avoid_fds as under its own contract']

    def overrides(self, E):
        d = dict(kernel.OVERRIDES)
        d['fd::avoid_fds'] = lambda E, st, c: avoid_contract(self, E, st, c)
        return d

    def setup(self, E, st, f):
        a = super().setup(E, st, f)
        t = f.locals[f.args[1]].args[0]
        self.fds = E.fresh(st, t, 'fds')
        return a + [E.ref_to(st, self.fds, t)]

    def post(self, E, st, ret):
        vi, _ = res_variant(E, st, ret)
        h, T0, T, q = self.h, self.T0, st.ghost['fdt'], self.q
        h2 = H(E, Sym(FDH, E.pack(st, E.load_ref(st, RefV(('h', FDH, self.ptr))), FDH)))
        if vi == 1:
            self.covered['error'] = True
            return
        self.covered['ok'] = True
        for var, i in h.vi.items():
            c = h.is_(var)
            if not E.feasible(st, c):
                continue
            E.prove(st, z3.Implies(c, h2.is_(var)), f'{var}: still that')
            both = []
            for n, _ in h.info.variants[i][2]:
                a, b = h.f(var, n), h2.f(var, n)
                if n in PRIVATE.get(var, ()):
                    both += [a, b]
                    E.prove(st, z3.Implies(c, z3.And(z3.Not(z3.Select(self.fds.has, b)), z3.Select(T, b) == z3.Select(T0, a))), f'{var}: {n} is out of the way')
                    E.prove(st, z3.Implies(z3.And(c, b != a), z3.Select(T, a) == 0), f'{var}: {n} is not left open')
                else:
                    E.prove(st, z3.Implies(c, a == b), f'{var}: {n} unchanged')
            E.prove(st, z3.Implies(z3.And(c, *[q != x for x in both]), z3.Select(T, q) == z3.Select(T0, q)), f'{var}: no other descriptor changes')


class PipesClose(Contract):
    """Pipes::close: every pipe end still kept is closed, and nothing else; the number of them is returned"""
    target = 'fd::Pipes::close'
    assumes = kernel.ASSUMES + ['the pipe ends kept are open and distinct (each was made new)']
    covers = ('ok',)

    def overrides(self, E):
        return dict(kernel.OVERRIDES)

    def setup(self, E, st, f):
        kernel.install(st)
        self.E = E
        self.T0 = st.ghost['fdt']
        self.pipes = E.fresh(st, f.locals[f.args[0]], 'pipes')
        self.m = m = list(fields(E, st, self.pipes).values())[0]
        self.p = z3.Const('probe_key', m.has.sort().domain())
        self.q = z3.Int('q')
        st.assume(z3.Select(self.T0, self.q) >= 0)
        map_wf_at(E, st, m, self.p)
        nonempty_facts(E, st, m)
        st.assume(z3.And(m.size >= 0, m.size <= 1 << 48))        # it is in memory
        st.ghost['bad'] = z3.BoolVal(False)
        self.inv(st, self.p)
        self.probes = [self.p, self.q]
        return [self.pipes]

    def ends(self, k):
        v = z3.Select(self.m.val, k)
        names = [n for n, _ in self.E.db.info(self.m.vty).fields]
        return [v.sort().accessor(0, names.index(n))(v) for n in ('read', 'write')]

    def has_end(self, k, e):
        s = e.sort()
        return z3.And(z3.Select(self.m.has, k), s.recognizer(1)(e)), s.accessor(1, 0)(e)

    OWNER = None

    def inv(self, st, k):
        """every end kept is open, and belongs to that key and side alone"""
        own = z3.Function('pipe_owner', I, self.p.sort())
        side = z3.Function('pipe_side', I, I)
        for i, e in enumerate(self.ends(k)):
            c, fd = self.has_end(k, e)
            st.assume(z3.Implies(c, z3.And(fd >= 0, z3.Select(self.T0, fd) > 0, own(fd) == k, side(fd) == i)))

    def on_item(self, E, st, it, i):
        if getattr(it, 'm', None) is None:
            return
        k = simp(z3.Select(it.m.key, i))
        st.assume(z3.And(z3.Select(self.m.has, k), z3.Select(self.m.pos, k) == i))
        self.inv(st, k)
        for c in st.univ:
            for _, fd in (self.has_end(k, e) for e in self.ends(k)):
                st.assume(z3.substitute(c, (self.p, k), (self.q, fd)))

    def generalise(self, n):
        return n.startswith('kept')

    def loop_inv(self, L):
        out = {}
        for ik in L.iters():
            done = lambda st, ik=ik: z3.Select(self.m.pos, self.p) < L.get(st, ik)
            for i, e in enumerate(self.ends(self.p)):
                c, fd = self.has_end(self.p, e)
                out[f'closed {i} it{ik[1]}'] = lambda st, c=c, fd=fd, done=done: z3.Implies(z3.And(c, done(st)), z3.Select(st.ghost['fdt'], fd) == 0)
                out[f'kept open {i} it{ik[1]}'] = lambda st, c=c, fd=fd, done=done: z3.Implies(z3.And(c, z3.Not(done(st))), z3.Select(st.ghost['fdt'], fd) > 0)
            mine = self.mine(self.q)
            out[f'kept others it{ik[1]}'] = lambda st: z3.Or(z3.Select(st.ghost['fdt'], self.q) == z3.Select(self.T0, self.q), mine)
            for k in L.values((z3.ArithRef,)):
                out[f'count {k[1]} it{ik[1]}'] = lambda st, k=k, ik=ik: z3.And(L.get(st, k) >= 0, L.get(st, k) <= 2 * L.get(st, ik))
        return out

    def mine(self, fd):
        """fd is one of the ends kept"""
        own = z3.Function('pipe_owner', I, self.p.sort())
        k = own(fd)
        return z3.Or([z3.And(*[x for x in (lambda c, f: (c, f == fd))(*self.has_end(k, e))]) for e in self.ends(k)])

    def post(self, E, st, ret):
        vi, fs = res_variant(E, st, ret)
        T = st.ghost['fdt']
        E.prove(st, z3.Or(z3.Select(T, self.q) == z3.Select(self.T0, self.q), self.mine(self.q)), 'nothing else is closed')
        if vi == 1:
            return
        self.covered['ok'] = True
        for e, n in zip(self.ends(self.p), ('read', 'write')):
            c, fd = self.has_end(self.p, e)
            E.prove(st, z3.Implies(c, z3.Select(T, fd) == 0), f'every {n} end kept is closed')


class WriterAvoid(AvoidFds):
    """avoid_fds of the error pipe's writer: the same for its descriptor"""
    target = 'err_pipe::ErrorWriter::avoid_fds'

    def setup(self, E, st, f):
        a = super().setup(E, st, f)
        self.wty = f.locals[f.args[0]].args[0]
        w = E.fresh(st, self.wty, 'writer')
        wfd = list(fields(E, st, w).values())[0]
        st.assume(wfd == self.fd0)
        self.wref = E.ref_to(st, w, self.wty, True)
        self.ref = None
        return [self.wref, a[1]]

    def cur(self, E, st):
        return list(fields(E, st, E.load_ref(st, self.wref)).values())[0]


CONTRACTS = [InChild, InParent, HandlerDrop, AvoidFds, HandlerAvoid, PipesClose, WriterAvoid]
