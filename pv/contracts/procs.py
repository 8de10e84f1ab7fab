"""The set of processes: registration, removal, notifications, signals, shutdown."""
from ..contract import *
from ..std import *
from .. import kernel

PROCS = Ty('adt', 'procs::Procs')
SPROCS = Ty('adt', 'procs::SharedProcs')
PROC = Ty('adt', 'procs::Proc')
NOTI = Ty('adt', 'procs::Notification')
SHUT = Ty('adt', 'shutdown::State')
ASSUMES = ['a broadcast send reaches every subscriber if there is one and fails otherwise; a watch channel holds the value last sent',
           'distinct shared references are distinct objects; no borrow of the process set is held by a caller']


class Enum:
    """recognisers and fields of a symbolic enum by name"""

    def __init__(self, E, ty):
        self.s, self.info = E.sort(ty), E.db.info(ty)
        self.vi = {x[0]: i for i, x in enumerate(self.info.variants)}

    def is_(self, t, n):
        return self.s.recognizer(self.vi[n])(t)

    def mk(self, n, *a):
        return self.s.constructor(self.vi[n])(*a)

    def f(self, t, n, i=0):
        return self.s.accessor(self.vi[n], i)(t)


def field(E, ty, t, name):
    """field of a packed struct term"""
    fs = [n for n, _ in E.db.info(ty).fields]
    return E.sort(ty).accessor(0, fs.index(name))(t)


def fty(E, ty, name):
    return dict(E.db.info(ty).fields)[name]


def is_some(t):
    return t.sort().recognizer(1)(t)


def some_of(t):
    return t.sort().accessor(1, 0)(t)


class Base(Contract):
    assumes = ASSUMES

    # ---- channels
    def overrides(self, E):
        d = {}

        def receiver_count(E, st, c):
            return self.nsubs

        def send(E, st, c):
            ch = val(E, st, c.args[0])
            v = c.args[1]
            t = getattr(ch, 'ty', None)
            k = str(t)
            if 'Notification' in k:
                self.sent(E, st, v)
                if E.decide(st, self.nsubs > 0):
                    n = E.fresh_const(I, 'nsent')
                    st.assume(n >= 1)
                    return Agg(c.dty, [n], 0)
                return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'senderr')], 1)
            if 'shutdown::State' in k:
                st.ghost['shut'] = simp(E.pack(st, v, SHUT))
                st.ghost['n_set'] = simp(st.ghost['n_set'] + 1)
                return Agg(c.dty, [unit()], 0)
            raise Unsupported('send on ' + k)

        def subscribe(E, st, c):
            return E.fresh(st, c.dty, 'sub')
        for p in ('', 'broadcast::', 'watch::'):
            d[p + 'Sender::send'] = send
            d[p + 'Sender::receiver_count'] = receiver_count
            d[p + 'Sender::subscribe'] = subscribe
        return d

    def sent(self, E, st, v):
        N = self.N
        t = E.pack(st, v, NOTI)
        g = st.ghost
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        for k, n in (('n_start', 'Start'), ('n_notrun', 'NotRunning'), ('n_delete', 'Delete')):
            g[k] = simp(g[k] + one(z3.And(N.is_(t, n), N.f(t, n) == self.p)))
        g['n_shut'] = simp(g['n_shut'] + one(z3.And(N.is_(t, 'ShutDown'), N.f(t, 'ShutDown') == self.pst)))
        g['n_all'] = simp(g['n_all'] + 1)
        # the agent ends once it has announced the completed shutdown: nothing may follow it
        g['n_late'] = simp(g['n_late'] + one(g['closed']))
        g['closed'] = simp(z3.Or(g['closed'], z3.And(N.is_(t, 'ShutDown'), self.Sh.is_(N.f(t, 'ShutDown'), 'Done'))))

    def watch_value(self, E, st, v):
        return E.unpack(st, st.ghost['shut'], SHUT)

    # ---- the set
    def base_setup(self, E, st):
        self.N, self.Sh = Enum(E, NOTI), Enum(E, SHUT)
        self.nsubs = z3.Int('subscribers')
        st.assume(z3.And(self.nsubs >= 0, self.nsubs < 1 << 40))
        self.p = z3.String('probe_id')
        self.pst = z3.Const('probe_state', E.sort(SHUT))
        self.probes = [self.p]
        g = st.ghost
        for k in ('n_start', 'n_notrun', 'n_delete', 'n_shut', 'n_all', 'n_set', 'n_late'):
            g[k] = z3.IntVal(0)
        g['closed'] = z3.BoolVal(False)
        self.shut0 = z3.Const('shutdown0', E.sort(SHUT))
        g['shut'] = self.shut0
        self.ptr = z3.Int('procs_ptr')
        st.assume(self.ptr >= 0)
        v = E.load_ref(st, RefV(('h', PROCS, self.ptr)))
        self.m0 = self.map(E, st)
        map_wf_at(E, st, self.m0, self.p)
        nonempty_facts(E, st, self.m0)
        self.procs0 = E.heap_term(st, PROC) if hasattr(E, 'heap_term') else None
        return E.ref_to(st, Agg(SPROCS, [RcV(PROCS, self.ptr)]), SPROCS)

    def map(self, E, st):
        v = E.load_ref(st, RefV(('h', PROCS, self.ptr)))
        return fields(E, st, v)['procs']

    def proc(self, E, st, ptr):
        """the packed Proc a pointer refers to"""
        return E.pack(st, E.load_ref(st, RefV(('h', PROC, ptr))), PROC)

    def running(self, E, st, pt):
        errs = field(E, PROC, pt, 'errors')
        n = errs.sort().accessor(0, 0)(errs)
        return z3.And(n == 0, z3.Not(is_some(field(E, PROC, pt, 'wait_info'))))

    def ptr_of(self, m, k):
        v = z3.Select(m.val, k)
        return v if z3.is_int(v) else v.sort().accessor(0, 0)(v)

    # ---- postconditions
    def map_is(self, E, st, m, has, ptr, what):
        """the set maps the probe id as given"""
        E.prove(st, z3.Select(m.has, self.p) == has, what + ': which ids')
        if ptr is not None:
            E.prove(st, z3.Implies(z3.Select(m.has, self.p), self.ptr_of(m, self.p) == ptr), what + ': which processes')

    def notified(self, E, st, what, start=0, notrun=0, delete=0, shut=None):
        g = st.ghost
        heard = self.nsubs > 0
        for k, n in (('n_start', start), ('n_notrun', notrun), ('n_delete', delete)):
            E.prove(st, z3.Implies(heard, g[k] == n), f'{what}: notifications {k[2:]}')
        E.prove(st, z3.Implies(heard, g['n_late'] == 0), f'{what}: nothing is announced after the completed shutdown')
        if shut is not None:
            E.prove(st, z3.Implies(heard, g['n_shut'] == z3.If(z3.And(shut[0], shut[1] == self.pst), z3.IntVal(1), z3.IntVal(0))), f'{what}: notifications shutdown')

    def idle_rule(self, E, st, empty, before=None):
        """shutdown when idle: completes exactly if requested and no process is left"""
        g = st.ghost
        before = self.shut0 if before is None else before
        done = self.Sh.mk('Done')
        idle = z3.And(empty, self.Sh.is_(before, 'Idling'))
        E.prove(st, g['shut'] == z3.If(idle, done, before), 'shutdown completes exactly when idle is requested and no process is left')
        return (idle, done)

    def procs_unchanged(self, E, st, ptr, pt):
        E.prove(st, self.proc(E, st, ptr) == pt, 'the processes themselves are unchanged')


class Notify(Base):
    """notify: exactly the given notification, once, to subscribers; none fails when nobody subscribes"""
    target = 'procs::SharedProcs::notify'
    covers = ('sent', 'nobody')

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.noti = E.fresh(st, NOTI, 'noti')
        return [r, self.noti]

    def post(self, E, st, ret):
        t, N = self.noti.term, self.N
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        is_ = lambda n: one(z3.And(N.is_(t, n), N.f(t, n) == self.p))
        self.notified(E, st, 'notify', is_('Start'), is_('NotRunning'), is_('Delete'), (N.is_(t, 'ShutDown'), N.f(t, 'ShutDown')))
        E.prove(st, st.ghost['n_all'] <= 1, 'one notification')
        E.prove(st, st.ghost['shut'] == self.shut0, 'shutdown state unchanged')
        self.covered['sent' if E.feasible(st, self.nsubs > 0) else 'nobody'] = True
        if E.feasible(st, self.nsubs == 0):
            self.covered['nobody'] = True


class Insert(Base):
    """insert: the process is registered under its id, others stay, and one start notification is sent"""
    target = 'procs::SharedProcs::insert'
    covers = ('done',)

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.id, self.new = z3.String('new_id'), z3.Int('new_ptr')
        st.assume(self.new >= 0)
        map_wf_at(E, st, self.m0, self.id)
        return [r, self.id, RcV(PROC, self.new)]

    def post(self, E, st, ret):
        self.covered['done'] = True
        m, hit = self.map(E, st), self.p == self.id
        self.map_is(E, st, m, z3.Or(hit, z3.Select(self.m0.has, self.p)), z3.If(hit, self.new, self.ptr_of(self.m0, self.p)), 'registered')
        self.notified(E, st, 'insert', start=z3.If(hit, z3.IntVal(1), z3.IntVal(0)), shut=(z3.BoolVal(False), self.pst))
        E.prove(st, st.ghost['n_all'] <= 1, 'insert: one notification')
        E.prove(st, st.ghost['shut'] == self.shut0, 'shutdown state unchanged')


class RemoveIfNotRunning(Base):
    """remove_if_not_running: removes exactly the named process if it is there and not running, with one delete notification; otherwise
    nothing changes and the error says which"""
    target = 'procs::SharedProcs::remove_if_not_running'
    covers = ('removed', 'running', 'unknown')

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.id = z3.String('id')
        map_wf_at(E, st, self.m0, self.id)
        self.rptr = self.ptr_of(self.m0, self.id)
        st.assume(z3.Implies(z3.Select(self.m0.has, self.id), self.rptr >= 0))
        self.pt = self.proc(E, st, self.rptr)
        return [r, E.ref_to(st, self.id, STRING)]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        m, m0, id = self.map(E, st), self.m0, self.id
        has0, run = z3.Select(m0.has, id), self.running(E, st, self.pt)
        E.prove(st, z3.BoolVal(vi == 0) == z3.And(has0, z3.Not(run)), 'removed exactly if registered and not running')
        if vi == 0:
            self.covered['removed'] = True
            self.map_is(E, st, m, z3.And(z3.Select(m0.has, self.p), self.p != id), self.ptr_of(m0, self.p), 'remove')
            r = val(E, st, fs[0])
            E.prove(st, (r.ptr if isinstance(r, RcV) else z3.IntVal(-1)) == self.rptr, 'the removed process is returned')
            shut = self.idle_rule(E, st, m.size == 0)
            self.notified(E, st, 'remove', delete=z3.If(self.p == id, z3.IntVal(1), z3.IntVal(0)), shut=shut)
        else:
            kind, ef = case(E, st, fs[0])
            self.map_is(E, st, m, z3.Select(m0.has, self.p), self.ptr_of(m0, self.p), 'refused removal')
            E.prove(st, z3.BoolVal(kind == 'NoProcId') == z3.Not(has0), 'unknown exactly if not registered')
            E.prove(st, z3.Implies(has0, z3.BoolVal(kind == 'ProcRunning')), 'else still running')
            x = list(ef.values())
            E.prove(st, val(E, st, x[0]) == id if x and z3.is_string(val(E, st, x[0])) else z3.BoolVal(False), 'the error names the process')
            self.notified(E, st, 'refused removal', shut=(z3.BoolVal(False), self.pst))
            E.prove(st, st.ghost['shut'] == self.shut0, 'refused removal: shutdown state unchanged')
            self.covered['running' if kind == 'ProcRunning' else 'unknown'] = True


class Pop(Base):
    """pop: removes one process if there is any, and only that one, with one delete notification"""
    target = 'procs::SharedProcs::pop'
    covers = ('some', 'none')

    def setup(self, E, st, f):
        return [self.base_setup(E, st)]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        m, m0 = self.map(E, st), self.m0
        E.prove(st, z3.BoolVal(vi == 0) == (m0.size == 0), 'nothing popped exactly if there is no process')
        if vi == 0:
            self.covered['none'] = True
            self.map_is(E, st, m, z3.Select(m0.has, self.p), self.ptr_of(m0, self.p), 'nothing popped')
            shut = self.idle_rule(E, st, z3.BoolVal(True))
            self.notified(E, st, 'nothing popped', shut=shut)
            return
        self.covered['some'] = True
        t = fields(E, st, fs[0])
        id, r = val(E, st, t[0]), val(E, st, t[1])
        E.prove(st, z3.And(z3.Select(m0.has, id), r.ptr == self.ptr_of(m0, id)), 'popped a registered process')
        self.map_is(E, st, m, z3.And(z3.Select(m0.has, self.p), self.p != id), self.ptr_of(m0, self.p), 'pop')
        shut = self.idle_rule(E, st, m.size == 0)
        self.notified(E, st, 'pop', delete=z3.If(self.p == id, z3.IntVal(1), z3.IntVal(0)), shut=shut)


class Results(Base):
    """results of all processes: one per registered process, being its current result"""
    assumes = ASSUMES + ['Proc::to_result as under its own contract']

    def overrides(self, E):
        d = super().overrides(E)

        def to_result(E, st, c):
            ref, v = target(E, st, c.args[0])
            t = E.pack(st, v, PROC)
            return E.unpack(st, z3.Function('result_of', E.sort(PROC), E.sort(c.dty))(t), c.dty)
        d['Proc::to_result'] = to_result
        return d

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.rptr = self.ptr_of(self.m0, self.p)
        st.assume(z3.Implies(z3.Select(self.m0.has, self.p), self.rptr >= 0))
        self.pt = self.proc(E, st, self.rptr)
        return [r]

    def is_result(self, E, st, ret):
        m0, p = self.m0, self.p
        E.prove(st, z3.Select(ret.has, p) == z3.Select(m0.has, p), 'one result for each registered process and no other')
        v = z3.Select(ret.val, p)
        E.prove(st, z3.Implies(z3.Select(m0.has, p), v == z3.Function('result_of', E.sort(PROC), v.sort())(self.pt)), 'each with its own result')

    def loop_inv(self, L):
        out = {}
        E, p, m0 = L.E, self.p, self.m0
        done = lambda st, ik: z3.And(z3.Select(m0.has, p), z3.Select(m0.pos, p) < L.get(st, ik))
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') != 'map' or not it.m.has.eq(m0.has):
                continue
            mm = it.m
            done = lambda st, ik=ik, mm=mm: z3.And(z3.Select(mm.has, p), z3.Select(mm.pos, p) < L.get(st, ik))
            for mk in L.values(MapV):
                out[f'results {mk[1]}{ik[1]} has'] = lambda st, mk=mk, done=done: z3.Select(L.get(st, mk).has, p) == done(st)

                def vals(st, mk=mk, done=done):
                    v = z3.Select(L.get(st, mk).val, p)
                    return z3.Implies(done(st), v == z3.Function('result_of', E.sort(PROC), v.sort())(self.pt))
                out[f'results {mk[1]}{ik[1]} val'] = vals
            out[f'deleted {ik[1]}'] = lambda st, done=done: z3.Implies(self.nsubs > 0, st.ghost['n_delete'] == z3.If(done(st), z3.IntVal(1), z3.IntVal(0)))
            out[f'not closed {ik[1]}'] = lambda st: z3.Implies(self.nsubs > 0, z3.And(z3.Not(st.ghost['closed']), st.ghost['n_late'] == 0))
        return out


class ToResult(Results):
    """SharedProcs::to_result: one result per registered process, and nothing changes"""
    target = 'procs::SharedProcs::to_result'
    covers = ('done',)

    def post(self, E, st, ret):
        self.covered['done'] = True
        self.is_result(E, st, ret)
        m = self.map(E, st)
        self.map_is(E, st, m, z3.Select(self.m0.has, self.p), self.ptr_of(self.m0, self.p), 'listing')
        self.notified(E, st, 'listing', shut=(z3.BoolVal(False), self.pst))


class CollectResults(Results):
    """collect_results: one result per registered process, none left, each removal announced once, and shutdown completed if idle was asked"""
    target = 'procs::SharedProcs::collect_results'
    covers = ('done',)

    def post(self, E, st, ret):
        self.covered['done'] = True
        self.is_result(E, st, ret)
        m = self.map(E, st)
        E.prove(st, z3.And(m.size == 0, z3.Not(z3.Select(m.has, self.p))), 'no process is left')
        shut = self.idle_rule(E, st, z3.BoolVal(True))
        self.notified(E, st, 'collecting', delete=z3.If(z3.Select(self.m0.has, self.p), z3.IntVal(1), z3.IntVal(0)), shut=shut)


class SetShutdown(Base):
    """set_shutdown: the state becomes the one asked for, announced once; asked to go idle with no process left, shutdown completes at once"""
    target = 'procs::SharedProcs::set_shutdown'
    covers = ('done', 'idle')

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.want = z3.Const('want', E.sort(SHUT))
        return [r, E.unpack(st, self.want, SHUT)]

    def post(self, E, st, ret):
        self.covered['done'] = True
        m = self.map(E, st)
        self.map_is(E, st, m, z3.Select(self.m0.has, self.p), self.ptr_of(self.m0, self.p), 'shutdown')
        idle, done = self.idle_rule(E, st, self.m0.size == 0, self.want)
        if E.feasible(st, idle):
            self.covered['idle'] = True
        g = st.ghost
        n = z3.If(self.want == self.pst, z3.IntVal(1), z3.IntVal(0)) + z3.If(z3.And(idle, done == self.pst), z3.IntVal(1), z3.IntVal(0))
        E.prove(st, z3.Implies(self.nsubs > 0, g['n_shut'] == n), 'each state change announced once')
        self.notified(E, st, 'shutdown')


class GetShutdown(Base):
    """get_shutdown: the current state"""
    target = 'procs::SharedProcs::get_shutdown'
    covers = ('done',)

    def setup(self, E, st, f):
        return [self.base_setup(E, st)]

    def post(self, E, st, ret):
        self.covered['done'] = True
        E.prove(st, E.pack(st, ret, SHUT) == self.shut0, 'the current shutdown state')


class Get(Base):
    """get: the process registered under the id, if any"""
    target = 'procs::SharedProcs::get'
    covers = ('some', 'none')

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.id = z3.String('id')
        map_wf_at(E, st, self.m0, self.id)
        return [r, E.str_ref(st, self.id)]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, z3.BoolVal(vi == 1) == z3.Select(self.m0.has, self.id), 'found exactly if registered')
        self.covered['some' if vi else 'none'] = True
        if vi == 1:
            E.prove(st, val(E, st, fs[0]).ptr == self.ptr_of(self.m0, self.id), 'the process of that id')


class SignalBase(Base):
    def overrides(self, E):
        d = super().overrides(E)

        def kill(E, st, c):
            pid, sig = c.args
            hit = lambda x: z3.If(z3.And(pid == x, sig == self.sig), z3.IntVal(1), z3.IntVal(0))
            g = st.ghost
            g['n_kill'] = simp(g['n_kill'] + hit(self.kpid))
            g['n_wrong'] = simp(g['n_wrong'] + z3.If(sig == self.sig, z3.IntVal(0), z3.IntVal(1)))
            g['n_kills'] = simp(g['n_kills'] + 1)
            if E.decide(st, E.fresh_const(B, 'kill_fails')):
                errno_after(E, st)
                st.assume(z3.Or([st.ghost['errno'] == x for x in (1, 3, 22)]))
                g['kill_err'] = st.ghost['errno']
                g['kill_failed'] = z3.BoolVal(True)
                return z3.IntVal(-1)
            return z3.IntVal(0)
        d['libc::kill'] = kill
        return d

    def sig_setup(self, E, st):
        g = st.ghost
        for k in ('n_kill', 'n_wrong', 'n_kills'):
            g[k] = z3.IntVal(0)
        g['kill_failed'] = z3.BoolVal(False)
        g['kill_err'] = z3.IntVal(0)
        g['errno'] = z3.Int('errno0')
        self.sig = z3.Int('signum')
        self.kpid = z3.Int('probe_pid')
        st.assume(z3.And(E.in_range(self.sig, 'i32'), E.in_range(self.kpid, 'i32')))


class SendSignal(SignalBase):
    """send_signal: exactly the signal to exactly the pid while the process was not reaped, nothing after; failure reported, missing process told apart"""
    target = 'procs::Proc::send_signal'
    covers = ('sent', 'reaped', 'failed')
    assumes = ASSUMES + ['kill(2) fails only with EPERM, ESRCH or EINVAL']

    def setup(self, E, st, f):
        self.base_setup(E, st)
        self.sig_setup(E, st)
        self.rptr = z3.Int('proc_ptr')
        st.assume(self.rptr >= 0)
        self.pt = self.proc(E, st, self.rptr)
        st.assume(E.in_range(field(E, PROC, self.pt, 'pid'), 'i32'))
        return [RefV(('h', PROC, self.rptr)), self.sig]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        g = st.ghost
        reaped = is_some(field(E, PROC, self.pt, 'wait_info'))
        pid = field(E, PROC, self.pt, 'pid')
        one = z3.If(z3.And(z3.Not(reaped), self.kpid == pid), z3.IntVal(1), z3.IntVal(0))
        E.prove(st, g['n_kill'] == one, 'the signal goes to the pid of the process, once, unless it was reaped')
        E.prove(st, z3.And(g['n_wrong'] == 0, g['n_kills'] == z3.If(reaped, z3.IntVal(0), z3.IntVal(1))), 'no other signal is sent')
        failed = g['kill_failed']
        E.prove(st, z3.BoolVal(vi == 0) == z3.And(z3.Not(reaped), z3.Not(failed)), 'success exactly if delivered')
        if vi == 0:
            self.covered['sent'] = True
            return
        kind, _ = case(E, st, fs[0])
        E.prove(st, z3.BoolVal(kind == 'NoProc') == z3.Or(reaped, g['kill_err'] == 3), 'missing process told apart')
        self.covered['reaped' if E.feasible(st, reaped) else 'failed'] = True
        self.procs_unchanged(E, st, self.rptr, self.pt)


class SendSignalAll(SignalBase):
    """send_signal_all: each running process gets the signal exactly once, and no other pid gets anything"""
    target = 'procs::SharedProcs::send_signal_all'
    covers = ('ok', 'err')
    assumes = ASSUMES + ['running processes (not yet reaped children) have distinct pids']

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.sig_setup(E, st)
        self.rptr = self.ptr_of(self.m0, self.p)
        st.assume(z3.Implies(z3.Select(self.m0.has, self.p), self.rptr >= 0))
        self.pt = self.proc(E, st, self.rptr)
        # the probe pid is either the probe process's own, or no running process's
        self.mine = z3.And(z3.Select(self.m0.has, self.p), self.running(E, st, self.pt), field(E, PROC, self.pt, 'pid') == self.kpid)
        self.f = z3.Function('n_sent', I, I)
        return [r, self.sig]

    def on_item(self, E, st, it, i):
        if it.kind != 'map':
            return
        k = z3.Select(it.m.key, i)
        pt = self.proc(E, st, self.ptr_of(it.m, k))
        st.assume(z3.Implies(k != self.p, z3.Not(z3.And(self.running(E, st, pt), field(E, PROC, pt, 'pid') == self.kpid))))
        st.assume(E.in_range(field(E, PROC, pt, 'pid'), 'i32'))

    def loop_inv(self, L):
        out = {}
        p = self.p
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') != 'map':
                continue
            done = lambda st, ik=ik, mm=it.m: z3.And(self.mine, z3.Select(mm.pos, p) < L.get(st, ik))
            out[f'signalled {ik[1]}'] = lambda st, done=done: st.ghost['n_kill'] == z3.If(done(st), z3.IntVal(1), z3.IntVal(0))
        for rk in L.values((Agg, Sym)):
            v = L.get(L.entry, rk)
            if v.ty is not None and v.ty.name == 'Result':
                out[f'error {rk[1]}'] = lambda st, rk=rk: (L.E.discr(st, L.get(st, rk)) == 1) == st.ghost['kill_failed']
        return out

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        g = st.ghost
        E.prove(st, g['n_kill'] == z3.If(self.mine, z3.IntVal(1), z3.IntVal(0)), 'each running process is signalled exactly once, and no other pid')
        E.prove(st, g['n_wrong'] == 0, 'with the given signal only')
        E.prove(st, z3.BoolVal(vi == 0) == z3.Not(g['kill_failed']), 'a failure is reported')
        self.covered['ok' if vi == 0 else 'err'] = True


CONTRACTS = [Notify, Insert, RemoveIfNotRunning, Pop, ToResult, CollectResults, SetShutdown, GetShutdown, Get, SendSignal, SendSignalAll]
