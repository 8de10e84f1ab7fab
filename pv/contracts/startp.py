"""Starting processes: what is checked before the fork, what the child does, and what the parent records."""
from ..contract import *
from ..std import *
from .procs import Base, Enum, PROCS, SPROCS, PROC, NOTI, SHUT, field, fty, is_some, some_of
from .validate import OK, NUM

SPEC = Ty('adt', 'spec::Proc')
SPECS = Ty('adt', 'BTreeMap', [STRING, SPEC])
FD = Ty('adt', 'spec::Fd')
ENV = Ty('adt', 'spec::Env')
EPIPE = Ty('adt', 'err_pipe::ErrorPipe')
FDH = Ty('adt', 'fd::FdHandler')
MH = z3.Function('handler_of', S, I, I)          # the handler made for the i-th fd of a process
MH_I = z3.Function('handler_index', I, I)
ONE, ZERO, T_, F_ = z3.IntVal(1), z3.IntVal(0), z3.BoolVal(True), z3.BoolVal(False)
GHOSTS = {'child': F_, 'cur': z3.StringVal(''), 'ci': z3.IntVal(-1), 'pid': z3.IntVal(-1), 'fail': ZERO, 'msg': ZERO, 'mute': F_, 'kept': F_,
          'n_avoid': ZERO, 'n_in': ZERO, 'n_par': ZERO, 'p_fork': ZERO, 'p_reg': ZERO, 'p_pid': z3.IntVal(-1), 'p_task': ZERO, 'forks': ZERO, 'regs': ZERO,
          'tasks': ZERO, 'p_rec': z3.IntVal(-1), 'closed': F_, 'sid': F_, 'execs': ZERO, 'rec': z3.IntVal(-1)}


def exe_of(e, a):
    n, arr = a.sort().accessor(0, 0)(a), a.sort().accessor(0, 1)(a)
    return z3.If(is_some(e), some_of(e), z3.If(n > 0, z3.Select(arr, 0), z3.StringVal('')))


class GetExe(Contract):
    """get_exe: the explicit executable, else the first argument, else empty"""
    target = 'procs::get_exe'
    covers = ('done',)

    def setup(self, E, st, f):
        self.e, at = z3.Const('exe', E.sort(opt_ty(STRING))), f.locals[f.args[1]].args[0]
        self.a = E.fresh(st, at, 'argv')
        self.at = E.pack(st, self.a, at)
        return [Sym(opt_ty(STRING), self.e), E.ref_to(st, self.a, at)]

    def post(self, E, st, ret):
        self.covered['done'] = True
        E.prove(st, val(E, st, ret) == exe_of(self.e, self.at), 'the executable meant')


class StartProcs(Base):
    """start_procs"""
    target = 'procs::start_procs'
    covers = ('ok', 'duplicate', 'invalid', 'shutdown', 'exec', 'child exit')
    budget = 800
    loop_memo = True
    assumes = ['fork and the creation of an error pipe succeed (else the agent gives up: it panics or exits)',
               'valid specs leave no pipe open in the parent after all processes were set up (make_fd_handler gives each end of a pipe to one handler)',
               'callees keep their contracts: validate_procs_fds, make_fd_handler, get_proc_ids, insert, notify, the fd handlers, the error pipe, execve, setsid, environ::build',
               'process::exit does not return; a successful execve does not return']

    def inc(self, st, n, cond=T_):
        st.ghost[n] = simp(st.ghost[n] + z3.If(cond, ONE, ZERO))

    # ---- the specs
    def spec(self, p):
        return z3.Select(self.m.val, p)

    def sf(self, p, n):
        return field(self.E, SPEC, self.spec(p), n)

    def nfds(self, p):
        v = self.sf(p, 'fds')
        return v.sort().accessor(0, 0)(v)

    def item(self, p, i):
        v = self.sf(p, 'fds')
        return z3.Select(v.sort().accessor(0, 1)(v), i)

    def fdname(self, p, i):
        t = self.item(p, i)
        return t.sort().accessor(0, 0)(t)

    def fdspec(self, p, i):
        t = self.item(p, i)
        return t.sort().accessor(0, 1)(t)

    def exe(self, p):
        return exe_of(self.sf(p, 'exe'), self.sf(p, 'argv'))

    def here(self, k):
        return z3.And(k >= 0, k < self.nfds(self.g['cur']))

    def setup(self, E, st, f):
        self.E = E
        r = self.base_setup(E, st)
        self.m = m = E.fresh(st, f.locals[f.args[0]], 'specs')
        st.assume(m.size >= 0)
        self.k = z3.Int('k')
        self.p1, self.i1 = self.p, self.k
        map_wf_at(E, st, m, self.p)
        nonempty_facts(E, st, m)
        self.restr = z3.Const('restricted', E.sort(opt_ty(STRING)))
        self.valid = z3.Bool('specs_valid')
        st.assume(MH_I(MH(self.p, self.k)) == self.k)
        for n, v in GHOSTS.items():
            st.ghost[n] = v
        st.ghost['pipe'] = z3.Const('no_pipe', E.sort(EPIPE))
        for n, t in (('rcv', 'sig::SignalReceiver'), ('watcher', 'sig::SignalWatcher')):
            st.ghost[n] = z3.Const('no_' + n, E.sort(Ty('adt', t)))
        st.ghost['listening'] = st.ghost['watched'] = F_
        return [m, r]

    # ---- callees, by their contracts
    def overrides(self, E):
        d = super().overrides(E)

        def result(E, st, c, ok, name, nm='err'):
            """Ok or a fresh error"""
            fails = E.fresh_const(B, name + '_fails')
            if E.decide(st, fails):
                return Agg(c.dty, [E.fresh(st, c.dty.args[1], nm)], 1)
            return Agg(c.dty, [ok() if callable(ok) else ok], 0)

        def validate(E, st, c):
            same = E.pack(st, val(E, st, c.args[0]), SPECS) == E.pack(st, self.m, SPECS)
            E.prove(st, same, 'the specs validated are the ones asked for')
            if E.decide(st, self.valid):
                return Agg(c.dty, [unit()], 0)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'invalid')], 1)
        d['spec::validate_procs_fds'] = validate

        def get_proc_ids(E, st, c):
            m0 = self.m0
            return MapV(STRING, UNIT, m0.has, z3.K(S, E.pack(st, unit(), UNIT)), m0.size, m0.key, m0.pos)
        d['SharedProcs::get_proc_ids'] = get_proc_ids

        def watcher(E, st, c):
            E.prove(st, E.pack(st, c.args[0], self.kty) == z3.Const('SIGCHLD', E.sort(self.kty)), 'child signals are listened for')
            v = E.fresh(st, c.dty, 'watcher')
            w, r = list(fields(E, st, v).values()) if isinstance(v, Sym) else v.fields
            st.ghost['watcher'], st.ghost['rcv'] = pack_any(E, st, w), pack_any(E, st, r)
            st.ghost['listening'], st.ghost['watched'] = T_, F_
            return v

        def child(E, st, c):
            self.kty = c.dty
            return E.unpack(st, z3.Const('SIGCHLD', E.sort(c.dty)), c.dty)
        d['SignalWatcher::new'] = watcher
        d['SignalKind::child'] = child
        d['SignalWatcher::watch'] = lambda E, st, c: PyV('future', name='watch', args=tuple(c.args), dty=c.dty)
        d['env::vars'] = lambda E, st, c: PyV('envvars')

        def build(E, st, c):
            E.prove(st, z3.BoolVal(isinstance(c.args[0], PyV) and c.args[0].kind == 'envvars'), "the environment is built from the agent's own")
            t = E.pack(st, val(E, st, c.args[1]), ENV)
            return E.unpack(st, z3.Function('env_of', t.sort(), E.sort(c.dty))(t), c.dty)
        d['environ::build'] = build

        def errpipe(E, st, c):
            v = E.fresh(st, c.dty.args[0], 'error_pipe')
            st.ghost['pipe'] = E.pack(st, v, v.ty)
            return Agg(c.dty, [v], 0)
        d['ErrorPipe::new'] = errpipe

        def mh(E, st, c):
            g = st.ghost
            id, name = val(E, st, c.args[0]), val(E, st, c.args[1])
            sp = E.pack(st, c.args[2], FD)
            E.prove(st, z3.And(id == g['cur'], name == self.fdname(g['cur'], g['ci']), sp == self.fdspec(g['cur'], g['ci'])), 'each fd handler is made for its own fd spec')
            E.prove(st, z3.Not(g['child']), 'fd handlers are made before the fork')
            ref, v = target(E, st, c.args[3])
            E.store_addr(st, ref.root, ref.path, E.fresh(st, v.ty, 'pipes'))
            p = simp(MH(g['cur'], g['ci']))
            st.assume(z3.And(MH_I(p) == g['ci'], p >= 0))
            return Agg(c.dty, [simp(NUM(name)), Agg(c.dty.args[1], [RcV(FDH, p)])])
        d['fd::make_fd_handler'] = mh

        def close_pipes(E, st, c):
            g = st.ghost
            if E.decide(st, g['child']):
                g['closed'] = T_
                r = result(E, st, c, lambda: self.count(E, st), 'close_pipes')
                if r.vi == 1:
                    self.inc(st, 'fail')
                return r
            # both ends of each pipe were made for valid specs
            return Agg(c.dty, [ZERO], 0)
        d['Pipes::close'] = close_pipes

        # -- the child
        def fork(E, st, c):
            g = st.ghost
            E.prove(st, z3.Not(g['child']), 'a child does not fork')
            E.prove(st, g['listening'], 'child signals are listened for before a child can end')
            E.prove(st, z3.And(self.valid, self.Sh.is_(self.shut0, 'Active')), 'forked only after all checks')
            E.prove(st, z3.Implies(z3.Select(self.m.has, self.p), z3.Not(z3.Select(self.m0.has, self.p))), 'forked only if no id is in use')
            for n in ('fail', 'msg', 'n_avoid', 'n_in', 'n_par'):
                g[n] = ZERO
            for n in ('mute', 'kept', 'closed', 'sid'):
                g[n] = F_
            self.inc(st, 'forks')
            self.inc(st, 'p_fork', g['cur'] == self.p)
            if E.decide(st, E.fresh_const(B, 'in_the_child')):
                g['child'] = T_
                g['pid'] = ZERO
                return Agg(c.dty, [ZERO], 0)
            pid = E.fresh_const(I, 'child_pid')
            st.assume(z3.And(pid > 0, pid <= INTS['i32'][1]))
            g['pid'] = pid
            return Agg(c.dty, [pid], 0)
        d['sys::fork'] = fork

        def err_in_child(E, st, c):
            E.prove(st, st.ghost['child'], "the child's side of the error pipe is taken in the child")
            E.prove(st, E.pack(st, c.args[0], EPIPE) == st.ghost['pipe'], 'the error pipe of this process')
            r = result(E, st, c, lambda: E.fresh(st, c.dty.args[0], 'writer'), 'error_pipe')
            if r.vi == 1:
                self.inc(st, 'fail')
                st.ghost['mute'] = T_
            else:
                # a different executable is a failure of the child
                self.inc(st, 'fail', z3.And(is_some(self.restr), self.exe(st.ghost['cur']) != some_of(self.restr)))
            return r
        d['ErrorPipe::in_child'] = err_in_child

        def write(E, st, c):
            self.inc(st, 'msg')
            return unit()
        d['ErrorWriter::try_write'] = write
        d['ErrorWriter::write'] = lambda E, st, c: (self.inc(st, 'msg'), Agg(c.dty, [unit()], 0))[1]

        def has_fds(E, st, c):
            """the set given holds every fd of the process"""
            m = val(E, st, c.args[1])
            E.prove(st, z3.Implies(self.here_(st, self.k), z3.Select(m.has, NUM(self.fdname(st.ghost['cur'], self.k)))), 'kept clear of every fd of the process')

        def w_avoid(E, st, c):
            has_fds(E, st, c)
            r = result(E, st, c, unit(), 'move_writer')
            st.ghost['kept'] = T_
            if r.vi == 1:
                self.inc(st, 'fail')
            return r
        d['ErrorWriter::avoid_fds'] = w_avoid

        def h_avoid(E, st, c):
            has_fds(E, st, c)
            p = self.handler(E, st, c.args[0])
            r = result(E, st, c, unit(), 'move_handler')
            self.inc(st, 'n_avoid', MH_I(p) == self.k)
            if r.vi == 1:
                self.inc(st, 'fail')
            return r
        d['SharedFdHandler::avoid_fds'] = h_avoid

        def in_child(E, st, c):
            g = st.ghost
            p = self.handler(E, st, c.args[0])
            E.prove(st, g['child'], 'set up in the child')
            E.prove(st, g['closed'], 'leftover pipes are closed before descriptors are set up')
            E.prove(st, z3.And(g['kept'], z3.Implies(self.here_(st, self.k), g['n_avoid'] >= 1)), 'private descriptors are moved out of the way first')
            # in the order of the spec, since one may dup another
            E.prove(st, z3.Implies(self.here_(st, self.k), (g['n_in'] > 0) == (self.k < MH_I(p))), 'fds are set up in the order of the spec')
            r = result(E, st, c, unit(), 'in_child')
            self.inc(st, 'n_in', MH_I(p) == self.k)
            if r.vi == 1:
                self.inc(st, 'fail')
            return r
        d['SharedFdHandler::in_child'] = in_child

        def setsid(E, st, c):
            E.prove(st, st.ghost['child'], 'new session in the child')
            st.ghost['sid'] = T_
            r = result(E, st, c, lambda: unit() if c.dty.args[0].is_unit() else E.fresh(st, c.dty.args[0], 'sid'), 'setsid')
            if r.vi == 1:
                self.inc(st, 'fail')
            return r
        d['sys::setsid'] = setsid

        def execve(E, st, c):
            g = st.ghost
            cur = g['cur']
            self.covered['exec'] = True
            E.prove(st, g['child'], 'exec: in the child only')
            E.prove(st, g['fail'] == 0, 'exec: only if every step succeeded')
            E.prove(st, z3.And(g['closed'], g['sid'], z3.Implies(self.here_(st, self.k), g['n_in'] == 1)), 'exec: only after every step, each fd once')
            exe, argv = val(E, st, c.args[0]), c.args[1]
            E.prove(st, exe == self.exe(cur), 'exec: the executable asked for')
            E.prove(st, z3.Implies(is_some(self.restr), exe == some_of(self.restr)), 'exec: only the restricted executable')
            at = fty(E, SPEC, 'argv')
            a, want = E.pack(st, argv, at), self.sf(cur, 'argv')
            E.prove(st, a == want, 'exec: the arguments asked for, in order')
            et = self.sf(cur, 'env')
            have = E.pack(st, c.args[2], self.env_ty(c))
            E.prove(st, have == z3.Function('env_of', et.sort(), have.sort())(et), 'exec: the constructed environment')
            self.inc(st, 'fail')
            self.inc(st, 'execs')
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'exec_err')], 1)
        d['sys::execve'] = execve

        def exit(E, st, c):
            g = st.ghost
            self.covered['child exit'] = True
            E.prove(st, g['child'], 'the agent does not exit')
            E.prove(st, c.args[0] == 63, 'a child that does not exec exits with 63')
            E.prove(st, g['fail'] >= 1, 'a child that could exec does')
            E.prove(st, z3.Or(g['mute'], g['msg'] == g['fail']), 'one message for each failure')
            E.prove(st, z3.Or(g['mute'], z3.Implies(self.here_(st, self.k), g['n_in'] == 1)), 'every fd that cannot be set up is found')
            return []
        d['process::exit'] = exit

        # -- the parent
        def get_exe(E, st, c):
            return simp(exe_of(E.pack(st, c.args[0], opt_ty(STRING)), E.pack(st, val(E, st, c.args[1]), fty(E, SPEC, 'argv'))))
        d['procs::get_exe'] = get_exe

        def restricted(E, st, c):
            ref = E.ref_to(st, Sym(opt_ty(STRING), self.restr), opt_ty(STRING))
            E.nguard += 1
            g = GuardV(ref, 'ref', E.nguard)
            st.guards[g.gid] = (ref, 'ref')
            return Agg(c.dty, [g], 0)
        d['RwLock::read'] = restricted
        d['procs::get_restricted_exe'] = lambda E, st, c: Sym(opt_ty(STRING), self.restr)

        def in_parent(E, st, c):
            p = self.handler(E, st, val_ref(E, st, c.args[0]))
            E.prove(st, z3.Not(st.ghost['child']), "the parent's side in the parent")
            self.inc(st, 'n_par', MH_I(p) == self.k)
            return result(E, st, c, lambda: E.fresh(st, c.dty.args[0], 'drain'), 'in_parent')
        d['SharedFdHandler::in_parent'] = in_parent

        def insert(E, st, c):
            g = st.ghost
            id, rc = val(E, st, c.args[1]), val(E, st, c.args[2])
            E.prove(st, z3.Not(g['child']), 'registered in the parent')
            E.prove(st, id == g['cur'], 'registered under its own id')
            pt = self.proc(E, st, rc.ptr)
            E.prove(st, z3.And(field(E, PROC, pt, 'pid') == g['pid'], z3.Not(is_some(field(E, PROC, pt, 'wait_info')))), 'registered with its own pid, as running')
            hs = field(E, PROC, pt, 'fd_handlers')
            n, arr = hs.sort().accessor(0, 0)(hs), hs.sort().accessor(0, 1)(hs)
            x = z3.Select(arr, self.k)
            E.prove(st, z3.And(n == self.nfds(g['cur']), z3.Implies(self.here_(st, self.k), self.entry(x, g['cur'], self.k))), 'registered with its own fd handlers')
            g['rec'] = rc.ptr
            self.inc(st, 'regs')
            self.inc(st, 'p_reg', id == self.p)
            return unit()
        d['SharedProcs::insert'] = insert

        def run_proc(E, st, c):
            return PyV('future', name='run_proc', args=tuple(c.args), dty=UNIT)
        d['procs::run_proc'] = run_proc

        def is_watch(v):
            return isinstance(v, PyV) and v.kind == 'future' and v.a['name'] == 'watch'

        def watch(E, st, c):
            if not is_watch(c.args[0]):
                raise Unsupported(f'spawned {c.args[0]}')
            E.prove(st, pack_any(E, st, c.args[0].a['args'][0]) == st.ghost['watcher'], 'the watcher spawned is the one made')
            st.ghost['watched'] = T_
            return E.fresh(st, c.dty, 'watch_task')

        def spawn_local(E, st, c):
            g = st.ghost
            if is_watch(c.args[0]):
                return watch(E, st, c)
            self.inc(st, 'tasks')
            self.inc(st, 'p_task', g['cur'] == self.p)
            E.prove(st, z3.Implies(self.here_(st, self.k), g['n_par'] == 1), "the parent's side of each fd is set up once")
            E.prove(st, z3.Not(g['child']), 'the task runs in the parent')
            self.task(E, st, c.args[0])
            return PyV('opaque', ty=c.dty) if False else E.fresh(st, c.dty, 'task')
        d['task::spawn_local'] = spawn_local
        d['tokio::spawn'] = d['task::spawn'] = watch
        return d

    def env_ty(self, c):
        return c.args[2].ty if isinstance(c.args[2], Sym) else Ty('adt', 'BTreeMap', [STRING, STRING])

    def count(self, E, st):
        n = E.fresh_const(I, 'nclosed')
        st.assume(z3.And(n >= 0, n < 1 << 40))
        return n

    def here_(self, st, k):
        return z3.And(k >= 0, k < self.nfds(st.ghost['cur']))

    def entry(self, x, cur, k):
        s = x.sort()
        h = s.accessor(0, 1)(x)
        while not z3.is_int(h):
            h = h.sort().accessor(0, 0)(h)
        return z3.And(s.accessor(0, 0)(x) == NUM(self.fdname(cur, k)), h == MH(cur, k))

    def handler(self, E, st, v):
        v = val(E, st, v)
        while isinstance(v, (Agg, Sym)):
            v = list(fields(E, st, v).values())[0]
        return v.ptr

    def task(self, E, st, fut):
        """run the spawned task on a copy: it must await exactly this process, then say it is not running"""
        s = st.copy()
        before = s.ghost['n_notrun']
        s.ghost['ran'] = ZERO

        def go(s, fut):
            if isinstance(fut, PyV) and fut.kind == 'inspected':
                outs = []
                for s2, v in go(s, fut.fut):
                    outs += E.call_value(s2, fut.f, [E.ref_to(s2, v, UNIT)])
                return outs
            if isinstance(fut, PyV) and fut.kind == 'future' and fut.a['name'] == 'run_proc':
                self.ran(E, s, fut.a['args'])
                return [(s, unit())]
            if isinstance(fut, ClosV):
                return E.run_async(s, fut)
            raise Unsupported(f'spawned {fut}')
        for s2, v in E.forked(s, lambda z: go(z, fut)):
            g = s2.ghost
            E.prove(s2, g['ran'] == 1, 'the task awaits its process')
            E.prove(s2, z3.Implies(z3.And(self.nsubs > 0), g['n_notrun'] == before + z3.If(g['cur'] == self.p, ONE, ZERO)), 'the task then announces once that it is not running')

    def ran(self, E, st, args):
        self.inc(st, 'ran')
        E.prove(st, val(E, st, args[0]).ptr == st.ghost['rec'], 'the task awaits the registered process')
        E.prove(st, pack_any(E, st, args[1]) == st.ghost['rcv'], 'the task hears of child signals since before the fork')
        E.prove(st, E.pack(st, args[2], EPIPE) == st.ghost['pipe'], 'the task reads the error pipe of its process')
        # anything may have happened meanwhile
        havoc_shared(E, st)
        st.ghost['shut'] = E.fresh_const(E.sort(SHUT), 'shut')

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] == 'run_proc':
            self.ran(E, st, fut.a['args'])
            return unit()
        raise Unsupported('await ' + fut.a['name'])

    # ---- loops
    def on_item(self, E, st, it, i):
        g = st.ghost
        if it.kind == 'map' and it.m.has.eq(self.m.has):
            k = simp(z3.Select(it.m.key, i))
            st.assume(z3.And(self.nfds(k) >= 0, z3.Select(self.m.has, k), z3.Select(self.m.pos, k) == i))
            g['cur'] = k
        elif it.kind == 'seq':
            g['ci'] = simp(i)
            for c in st.univ:
                c2 = z3.substitute(c, (self.k, i))
                if not c2.eq(c):
                    st.assume(c2)
            st.assume(MH_I(MH(g['cur'], i)) == i)

    def generalise(self, n):
        return n.startswith('made ')

    def loop_inv(self, L):
        E, out = L.E, {}
        p, k, m = self.p, self.k, self.m
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') == 'map' and it.m.has.eq(m.has):
                done = lambda st, ik=ik: z3.And(z3.Select(m.has, p), z3.Select(m.pos, p) < L.get(st, ik))
                for n in ('p_fork', 'p_reg', 'p_task'):
                    out[f'{n} it{ik[1]}'] = lambda st, n=n, done=done: st.ghost[n] == z3.If(done(st), ONE, ZERO)
                for n in ('forks', 'regs', 'tasks'):
                    out[f'{n} it{ik[1]}'] = lambda st, n=n, ik=ik: st.ghost[n] == L.get(st, ik)
                out[f'parent it{ik[1]}'] = lambda st: z3.Not(st.ghost['child'])
                out[f'announced it{ik[1]}'] = lambda st: z3.And(st.ghost['n_notrun'] == 0, st.ghost['n_start'] == 0)
                nodup = lambda st, done=done: z3.Implies(done(st), z3.Not(z3.Select(self.m0.has, p)))
                out[f'none dup it{ik[1]}'] = nodup
                for bk in L.values(z3.BoolRef):
                    out[f'none dup it{ik[1]} if {bk[1]}'] = lambda st, bk=bk, nodup=nodup: z3.Implies(L.get(st, bk), nodup(st))
                    out[f'none dup it{ik[1]} unless {bk[1]}'] = lambda st, bk=bk, nodup=nodup: z3.Or(L.get(st, bk), nodup(st))
                for vk in L.values(VecV):
                    if E.sort(L.get(L.entry, vk).ety) != S:
                        out[f'tasks it{ik[1]} {vk[1]}'] = lambda st, vk=vk, ik=ik: L.get(st, vk).length() == L.get(st, ik)
                        continue
                    out[f'tasks it{ik[1]} {vk[1]}'] = lambda st, vk=vk, ik=ik: L.get(st, vk).length() == L.get(st, ik)
                    # ids found so far that are in use
                    out[f'none dup it{ik[1]} {vk[1]}'] = lambda st, vk=vk, done=done: z3.Implies(z3.And(L.get(st, vk).length() == 0, done(st)), z3.Not(z3.Select(self.m0.has, p)))

                    def alldup(st, vk=vk):
                        v = L.get(st, vk)
                        x = z3.Select(E.vec_arr(st, v), k)
                        return z3.Implies(z3.And(k >= 0, k < v.length()), z3.And(z3.Select(m.has, x), z3.Select(self.m0.has, x)))
                    out[f'made dup it{ik[1]} {vk[1]}'] = alldup
            elif getattr(it, 'kind', '') == 'seq':
                idx = lambda st, ik=ik: L.get(st, ik)
                cur = L.entry.ghost['cur']
                seen = lambda st, ik=ik: z3.And(k >= 0, k < L.get(st, ik))
                for n in ('n_avoid', 'n_in', 'n_par'):
                    out[f'{n} it{ik[1]}'] = lambda st, n=n, seen=seen: st.ghost[n] == z3.If(seen(st), ONE, ZERO)
                out[f'messages it{ik[1]}'] = lambda st: st.ghost['msg'] == st.ghost['fail']
                for vk in L.values(VecV):
                    es = E.sort(L.get(L.entry, vk).ety)
                    if not isinstance(es, z3.DatatypeSortRef) or es.num_constructors() != 1 or es.constructor(0).arity() != 2:
                        continue

                    def made(st, vk=vk, seen=seen):
                        x = z3.Select(E.vec_arr(st, L.get(st, vk)), k)
                        return z3.Implies(seen(st), self.entry(x, cur, k))
                    out[f'made it{ik[1]} {vk[1]}'] = made
                for mk in L.values(MapV):
                    out[f'set it{ik[1]} {mk[1]}'] = lambda st, mk=mk, seen=seen: z3.Implies(seen(st), z3.Select(L.get(st, mk).has, NUM(self.fdname(cur, k))))
                for bk in L.values(z3.BoolRef):
                    out[f'flag it{ik[1]} {bk[1]}'] = lambda st, bk=bk: L.get(st, bk) == (st.ghost['fail'] == 0)
                    out[f'flag it{ik[1]} {bk[1]} only'] = lambda st, bk=bk: z3.Implies(L.get(st, bk), st.ghost['fail'] == 0)
                out[f'fails it{ik[1]}'] = lambda st: st.ghost['fail'] >= 0
        return out

    def post(self, E, st, ret):
        g, p, m = st.ghost, self.p, self.m
        E.prove(st, z3.Not(g['child']), 'a child never returns')
        _, _, vi, fs = variant(E, st, ret)
        dup = z3.And(z3.Select(m.has, p), z3.Select(self.m0.has, p))
        active = self.Sh.is_(self.shut0, 'Active')
        if vi == 0:
            self.covered['ok'] = True
            E.prove(st, z3.Not(dup), 'accepted: no id is in use')
            E.prove(st, self.valid, 'accepted: the fd specs are valid')
            E.prove(st, active, 'accepted: not shutting down')
            inn = z3.If(z3.Select(m.has, p), ONE, ZERO)
            E.prove(st, g['p_fork'] == inn, 'each process is forked exactly once, and no other')
            E.prove(st, g['p_reg'] == inn, 'each process is registered exactly once, and no other')
            E.prove(st, g['p_task'] == inn, 'one task awaits each process')
            E.prove(st, z3.And(g['forks'] == m.size, g['regs'] == m.size, g['tasks'] == m.size), 'as many processes as asked for')
            r = val(E, st, fs[0])
            E.prove(st, r.length() == m.size, 'all tasks are returned')
            E.prove(st, z3.Or(m.size == 0, g['watched']), 'child signals are passed on')
        else:
            E.prove(st, z3.And(g['forks'] == 0, g['regs'] == 0, g['tasks'] == 0), 'rejected: nothing is forked, registered or awaited')
            kind, f = case(E, st, fs[0])
            self.why(E, st, kind, f, active)
        m1 = self.map(E, st)
        self.map_is(E, st, m1, z3.Select(self.m0.has, p), self.ptr_of(self.m0, p), 'registered processes untouched')
        E.prove(st, g['shut'] == self.shut0, 'shutdown state unchanged')
        E.prove(st, z3.And(g['n_start'] == 0, g['n_delete'] == 0, g['n_notrun'] == 0), 'no other notification')

    def why(self, E, st, kind, f, active):
        x = list(f.values())[0] if f else None
        if kind == 'ShuttingDown':
            self.covered['shutdown'] = True
            E.prove(st, z3.And(z3.Not(active), E.pack(st, x, SHUT) == self.shut0), 'rejected as shutting down only then, with its state')
        elif kind == 'Spec':
            k2, f2 = case(E, st, x)
            if k2 == 'DuplicateProcId' and E.feasible(st, self.valid):
                id = val(E, st, list(f2.values())[0])
                self.covered['duplicate'] = True
                E.prove(st, z3.Or(z3.Not(self.valid), z3.And(z3.Select(self.m.has, id), z3.Select(self.m0.has, id))), 'rejected as duplicate only if that id is asked for and in use')
            else:
                self.covered['invalid'] = True
                E.prove(st, z3.Not(self.valid), 'rejected as invalid only then')
        else:
            E.prove(st, z3.Not(self.valid), f'no {kind} error')


class Restriction(Contract):
    covers = ('done',)
    assumes = ['the lock of the restriction is not poisoned']

    def cell(self, E, st):
        self.old = z3.Const('restricted', E.sort(opt_ty(STRING)))
        self.ref = E.ref_to(st, Sym(opt_ty(STRING), self.old), opt_ty(STRING), True)

    def overrides(self, E):
        def guard(E, st, c):
            E.nguard += 1
            kind = 'mut' if c.cal.method == 'write' else 'ref'
            g = GuardV(self.ref, kind, E.nguard)
            st.guards[g.gid] = (self.ref, kind)
            return Agg(c.dty, [g], 0)
        return {'RwLock::read': guard, 'RwLock::write': guard}

    def now(self, E, st):
        return E.pack(st, E.load_ref(st, self.ref), opt_ty(STRING))


class RestrictExe(Restriction):
    """restrict_exe: the restriction becomes exactly the given executable"""
    target = 'procs::restrict_exe'

    def setup(self, E, st, f):
        self.cell(E, st)
        self.e = z3.Const('exe', S)
        return [E.ref_to(st, self.e, STR)]

    def post(self, E, st, ret):
        self.covered['done'] = True
        now = self.now(E, st)
        E.prove(st, z3.And(is_some(now), some_of(now) == self.e), 'the restriction is exactly the executable given')


class GetRestricted(Restriction):
    """get_restricted_exe: the restriction as set"""
    target = 'procs::get_restricted_exe'

    def setup(self, E, st, f):
        self.cell(E, st)
        return []

    def post(self, E, st, ret):
        self.covered['done'] = True
        E.prove(st, E.pack(st, ret, opt_ty(STRING)) == self.old, 'the restriction as set')
        E.prove(st, self.now(E, st) == self.old, 'left as it is')


def val_ref(E, st, v):
    return v


CONTRACTS = [GetExe, StartProcs, RestrictExe, GetRestricted]
