"""Waiting for processes and shutdown, the signal handlers, and the messages made of notifications."""
from ..contract import *
from ..std import *
from .procs import *

MSG = Ty('adt', 'proto::OutgoingMessage')
KEEP_ALIVE = 'the process set (held by the caller) keeps its notification and shutdown channels open'


class FirstBase(Base):
    covers = ('some', 'none')

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.rptr = self.ptr_of(self.m0, self.p)
        st.assume(z3.Implies(z3.Select(self.m0.has, self.p), self.rptr >= 0))
        self.pt = self.proc(E, st, self.rptr)
        return [r]

    def on_item(self, E, st, it, i):
        if it.kind == 'map':
            k = z3.Select(it.m.key, i)
            st.assume(self.ptr_of(it.m, k) >= 0)

    def meets(self, E, st, pt):
        raise NotImplementedError

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        self.covered['some' if vi else 'none'] = True
        m0 = self.m0
        if vi == 1:
            t = fields(E, st, fs[0])
            id, r = val(E, st, t[0]), val(E, st, t[1])
            E.prove(st, z3.Select(m0.has, id), 'a registered process')
            E.prove(st, r.ptr == self.ptr_of(m0, id), 'under its id')
            E.prove(st, self.meets(E, st, self.proc(E, st, self.ptr_of(m0, id))), 'for which the condition holds')
        else:
            E.prove(st, z3.Implies(z3.Select(m0.has, self.p), z3.Not(self.meets(E, st, self.pt))), 'none only if there is none')
        m = self.map(E, st)
        self.map_is(E, st, m, z3.Select(m0.has, self.p), self.ptr_of(m0, self.p), 'looking')


class First(FirstBase):
    """first: some registered process, none only if there is none"""
    target = 'procs::SharedProcs::first'

    def meets(self, E, st, pt):
        return z3.BoolVal(True)


class FirstRunning(FirstBase):
    """first_running: some running process, none only if none is running"""
    target = 'procs::SharedProcs::first_running'

    def meets(self, E, st, pt):
        return self.running(E, st, pt)

    def loop_inv(self, L):
        out = {}
        p = self.p
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') == 'map' and it.m.has.eq(self.m0.has):
                out[f'none before {ik[1]}'] = lambda st, ik=ik, mm=it.m: z3.Implies(
                    z3.And(z3.Select(mm.has, p), z3.Select(mm.pos, p) < L.get(st, ik)), z3.Not(self.running(L.E, st, self.pt)))
        return out


def recv_error(E, st, rty, why):
    e = E.fresh(st, rty.args[1], 'recverr')
    case(E, st, e)
    t = E.pack(st, e, rty.args[1])
    vi = [i for i, v in enumerate(E.db.info(rty.args[1]).variants) if v[0] == why][0]
    st.assume(t.sort().recognizer(vi)(t))
    return Agg(rty, [e], 1)


class WaitBase(Base):
    """common to waits on notifications"""
    covers = ('done',)
    assumes = ASSUMES + [KEEP_ALIVE]
    ends = ()

    def overrides(self, E):
        d = super().overrides(E)
        old = d['Sender::subscribe']

        def subscribe(E, st, c):
            g = st.ghost
            g['n_sub'] = simp(g['n_sub'] + 1)
            # a new subscription misses what was queued on an old one: the state has to be checked after it
            g['stale'] = simp(z3.Or(g['stale'], g['awaited']))
            return old(E, st, c)
        for p in ('', 'broadcast::', 'watch::'):
            d[p + 'Sender::subscribe'] = subscribe

        def first(E, st, c):
            # contract of first / first_running
            run = c.cal.method == 'first_running'
            m = self.map(E, st)
            st.ghost['checked'] = z3.BoolVal(True)
            for k in ('ended', 'stale', 'awaited'):
                st.ghost[k] = z3.BoolVal(False)
            if E.decide(st, E.fresh_const(B, 'some')):
                id = E.fresh_const(S, 'id')
                map_wf_at(E, st, m, id)
                ptr = self.ptr_of(m, id)
                st.assume(z3.And(z3.Select(m.has, id), ptr >= 0))
                if run:
                    st.assume(self.running(E, st, self.proc(E, st, ptr)))
                st.ghost['cur'] = id
                st.ghost['cur_has'] = z3.BoolVal(True)
                return Agg(c.dty, [Agg(c.dty.args[0], [id, RcV(PROC, ptr)])], 1)
            c1 = z3.Not(z3.Select(m.has, self.p))
            if run:
                c1 = z3.Or(c1, z3.Not(self.running(E, st, self.proc(E, st, self.ptr_of(m, self.p)))))
            else:
                nonempty_facts(E, st, m)
                st.assume(m.size == 0)
            st.assume(c1)
            return Agg(c.dty, [], 0)
        d['SharedProcs::first'] = first
        d['SharedProcs::first_running'] = first
        return d

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        g = st.ghost
        g['n_sub'] = z3.IntVal(0)
        g['checked'] = z3.BoolVal(False)
        g['cur_has'] = z3.BoolVal(False)
        g['cur'] = z3.StringVal('')
        for k in ('ended', 'stale', 'awaited'):
            g[k] = z3.BoolVal(False)
        return [r]

    def on_await(self, E, st, fut, rty):
        g = st.ghost
        if fut.a['name'] != 'broadcast_recv':
            raise Unsupported('await of ' + fut.a['name'])
        # no lost wakeup: subscribed before the state was last checked, and what was waited for has not been announced since
        E.prove(st, g['n_sub'] >= 1, 'subscribed before waiting')
        E.prove(st, g['checked'], 'the state is checked after subscribing')
        E.prove(st, z3.Not(g['ended']), 'once the process waited for is announced gone, the state is checked again')
        E.prove(st, z3.Not(g['stale']), 'no queued notification is dropped')
        havoc_shared(E, st)
        g['awaited'] = z3.BoolVal(True)
        if E.decide(st, E.fresh_const(B, 'lagged')):
            # the notification waited for may be among those missed
            g['ended'] = z3.BoolVal(True)
            return recv_error(E, st, rty, 'Lagged')
        n = E.fresh(st, NOTI, 'noti')
        N, t = self.N, n.term
        end = z3.Or([z3.And(N.is_(t, k), N.f(t, k) == g['cur']) for k in self.ends])
        g['ended'] = simp(z3.And(g['cur_has'], end))
        return Agg(rty, [n], 0)

    def loop_inv(self, L):
        out = {}
        out['subscribed'] = lambda st: st.ghost['n_sub'] >= 1
        out['checked'] = lambda st: st.ghost['checked']
        out['not ended'] = lambda st: z3.Not(st.ghost['ended'])
        out['not stale'] = lambda st: z3.Not(st.ghost['stale'])
        out['awaiting'] = lambda st: st.ghost['cur_has']
        for k in L.values((z3.ExprRef,), lambda v: isinstance(v, z3.ExprRef) and z3.is_string(v)):
            out[f'cur {k[1]}{k[2] if len(k) > 2 else ""}'] = lambda st, k=k: L.get(st, k) == st.ghost['cur']
        return out


class WaitRunning(WaitBase):
    """wait_running: returns only when no process is running; no termination or deletion is missed"""
    target = 'procs::SharedProcs::wait_running'
    ends = ('NotRunning', 'Delete')

    def post(self, E, st, ret):
        self.covered['done'] = True
        m = self.map(E, st)
        pt = self.proc(E, st, self.ptr_of(m, self.p))
        E.prove(st, z3.Not(z3.And(z3.Select(m.has, self.p), self.running(E, st, pt))), 'no process is running')


class WaitIdle(WaitBase):
    """wait_idle: returns only when no process remains; no deletion is missed"""
    target = 'procs::SharedProcs::wait_idle'
    ends = ('Delete',)

    def post(self, E, st, ret):
        self.covered['done'] = True
        m = self.map(E, st)
        E.prove(st, z3.And(m.size == 0, z3.Not(z3.Select(m.has, self.p))), 'no process remains')


class WaitForShutdown(Base):
    """wait_for_shutdown: returns only once shutdown is done, and without waiting for more once it is"""
    target = 'procs::SharedProcs::wait_for_shutdown'
    covers = ('done',)
    assumes = ASSUMES + [KEEP_ALIVE]

    def setup(self, E, st, f):
        return [self.base_setup(E, st)]

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'watch_changed':
            raise Unsupported('await of ' + fut.a['name'])
        E.prove(st, z3.Not(self.Sh.is_(st.ghost['shut'], 'Done')), 'does not wait once shutdown is done')
        havoc_shared(E, st)
        st.ghost['shut'] = E.fresh_const(E.sort(SHUT), 'shut')
        return Agg(rty, [unit()], 0)

    def post(self, E, st, ret):
        self.covered['done'] = True
        E.prove(st, self.Sh.is_(st.ghost['shut'], 'Done'), 'shutdown is done')


class NotiRecv(Base):
    """NotificationSub::recv: each notification as it is, in the order of the channel; none once the channel is closed or some were missed"""
    target = 'procs::NotificationSub::recv'
    covers = ('some', 'none')
    assumes = [KEEP_ALIVE]

    def setup(self, E, st, f):
        self.n = 0
        st.ghost['n_recv'] = z3.IntVal(0)
        t = f.locals[f.args[0]].args[0]
        return [E.ref_to(st, E.fresh(st, t, 'sub'), t)]

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'broadcast_recv':
            raise Unsupported('await of ' + fut.a['name'])
        st.ghost['n_recv'] = simp(st.ghost['n_recv'] + 1)
        if E.decide(st, E.fresh_const(B, 'got')):
            st.ghost['got'] = z3.Const('received', E.sort(NOTI))
            return Agg(rty, [E.unpack(st, st.ghost['got'], NOTI)], 0)
        return recv_error(E, st, rty, 'Lagged' if E.decide(st, E.fresh_const(B, 'lagged')) else 'Closed')

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, st.ghost['n_recv'] == 1, 'one notification is taken')
        E.prove(st, z3.BoolVal((vi == 1) == ('got' in st.ghost)), 'a notification exactly if there is one')
        if vi == 1 and 'got' in st.ghost:
            self.covered['some'] = True
            E.prove(st, E.pack(st, fs[0], NOTI) == st.ghost['got'], 'as it was sent')
        else:
            self.covered['none'] = True


class NotiMessage(Base):
    """notification_to_message: start and termination become the current result of that process (nothing if it is gone), deletion a deletion,
    shutdown that state"""
    target = 'agent::notification_to_message'
    covers = ('result', 'gone', 'delete', 'shutdown')
    assumes = ASSUMES + ['Proc::to_result as under its own contract']

    def overrides(self, E):
        d = super().overrides(E)
        d['Proc::to_result'] = Results.overrides(self, E)['Proc::to_result'] if isinstance(self, Results) else result_override
        return d

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.noti = z3.Const('noti', E.sort(NOTI))
        N, n = self.N, self.noti
        self.id = z3.If(N.is_(n, 'Start'), N.f(n, 'Start'), z3.If(N.is_(n, 'NotRunning'), N.f(n, 'NotRunning'), N.f(n, 'Delete')))
        map_wf_at(E, st, self.m0, self.id)
        self.rptr = self.ptr_of(self.m0, self.id)
        st.assume(z3.Implies(z3.Select(self.m0.has, self.id), self.rptr >= 0))
        self.pt = self.proc(E, st, self.rptr)
        return [r, E.unpack(st, self.noti, NOTI)]

    def post(self, E, st, ret):
        N, n = self.N, self.noti
        _, _, vi, fs = variant(E, st, ret)
        proc = z3.Or(N.is_(n, 'Start'), N.is_(n, 'NotRunning'))
        has = z3.Select(self.m0.has, self.id)
        E.prove(st, z3.BoolVal(vi == 0) == z3.And(proc, z3.Not(has)), 'no message exactly for a process that is gone')
        if vi == 0:
            self.covered['gone'] = True
        else:
            kind, f = case(E, st, fs[0])
            E.prove(st, z3.BoolVal(kind == 'ProcResult') == proc, 'a result for start and termination')
            E.prove(st, z3.BoolVal(kind == 'ProcDelete') == N.is_(n, 'Delete'), 'a deletion for a deletion')
            E.prove(st, z3.BoolVal(kind == 'ShutDown') == N.is_(n, 'ShutDown'), 'a shutdown state for a shutdown')
            if kind in ('ProcResult', 'ProcDelete'):
                E.prove(st, val(E, st, f['proc_id']) == self.id, 'naming that process')
                self.covered['result' if kind == 'ProcResult' else 'delete'] = True
            if kind == 'ProcResult':
                t = E.pack(st, f['res'], Ty('adt', 'res::ProcRes'))
                E.prove(st, t == z3.Function('result_of', E.sort(PROC), t.sort())(self.pt), 'the current result of that process')
            if kind == 'ShutDown':
                self.covered['shutdown'] = True
                E.prove(st, E.pack(st, f['shutdown_state'], SHUT) == N.f(n, 'ShutDown'), 'that state')
        m = self.map(E, st)
        self.map_is(E, st, m, z3.Select(self.m0.has, self.p), self.ptr_of(self.m0, self.p), 'messaging')


def result_override(E, st, c):
    ref, v = target(E, st, c.args[0])
    t = E.pack(st, v, PROC)
    return E.unpack(st, z3.Function('result_of', E.sort(PROC), E.sort(c.dty))(t), c.dty)


STYLE = Ty('adt', 'shutdown::SignalStyle')


class SignalHandler(Base):
    """install_signal_handler: listens for that signal from the start and acts only on it.  Terminate: SIGTERM to all running, up to 60 s for them to
    end, SIGKILL to those left only if some are; quit: SIGKILL at once; then both allow up to 5 s for deletions and complete shutdown.  Idle: idles."""
    target = 'shutdown::install_signal_handler'
    covers = ('idle', 'term', 'term and kill', 'kill')
    assumes = ASSUMES + ['SharedProcs::send_signal_all, set_shutdown, wait_running and wait_idle as under their own contracts',
                         'signal(2) registration succeeds (else the agent does not start)']

    def overrides(self, E):
        d = super().overrides(E)

        def ev(name):
            def f(E, st, c):
                event(E, st, name, list(c.args[1:]), None)
                if c.dty.is_unit():
                    return unit()
                return E.fresh(st, c.dty, name)
            return f

        def fut(name):
            return lambda E, st, c: PyV('future', name=name, args=(), dty=c.dty)
        d['SharedProcs::send_signal_all'] = ev('all')
        d['SharedProcs::set_shutdown'] = ev('set')
        d['SharedProcs::wait_running'] = fut('wait_running')
        d['SharedProcs::wait_idle'] = fut('wait_idle')

        def from_raw(E, st, c):
            return E.unpack(st, z3.Function('sigkind', I, E.sort(c.dty))(c.args[0]), c.dty)

        def signal(E, st, c):
            event(E, st, 'listen', list(c.args), None)
            return Agg(c.dty, [E.fresh(st, c.dty.args[0], 'stream')], 0)
        for p in ('', 'unix::', 'tokio::signal::unix::', 'signal::unix::'):
            d[p + 'SignalKind::from_raw'] = from_raw
            d[p + 'signal'] = signal

        def abbrev(E, st, c):
            return Agg(c.dty, [E.str_ref(st, z3.String('signame'))], 1)
        d['sig::get_abbrev'] = abbrev
        d['get_abbrev'] = abbrev
        return d

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.sig = z3.Int('signum')
        st.assume(z3.Or([self.sig == k for k in (2, 3, 10, 15)]))
        self.style = E.fresh(st, STYLE, 'style')
        return [r, self.sig, self.style]

    def execute(self, E, st, f, args):
        out = []
        for s, v in E.run(f, args, st):
            lst = [e for e in s.trace if e[0] == 'listen']
            E.prove(s, z3.BoolVal(len(lst) == 1), 'listens for one signal before anything else')
            for e in lst:
                k = pack_any(E, s, val(E, s, e[1][0]))
                E.prove(s, k == z3.Function('sigkind', I, k.sort())(self.sig), 'for the given one')
            E.prove(s, z3.BoolVal(not [e for e in s.trace if e[0] in ('all', 'set')]), 'does nothing before the signal')
            while isinstance(v, Agg) and not isinstance(v, ClosV):
                v = v.fields[0]
                while isinstance(v, RefV):
                    v = E.load_ref(s, v)
            out += E.run_async(s, v)
        return out

    def on_await(self, E, st, fut, rty):
        n = fut.a['name']
        havoc_shared(E, st)
        if n == 'signal_recv':
            E.prove(st, z3.BoolVal(not [e for e in st.trace if e[0] in ('all', 'set')]), 'does nothing before the signal')
            event(E, st, 'got', [], None)
            return Agg(rty, [unit()], 1)
        if n == 'timeout':
            d, inner = fut.a['args'][0], fut.a['args'][1]
            while isinstance(inner, RefV):
                inner = E.load_ref(st, inner)
            k = inner.a['name'] if isinstance(inner, PyV) and inner.kind == 'future' else '?'
            if E.decide(st, E.fresh_const(B, 'in_time')):
                event(E, st, 'in time ' + k, [d], None)
                return Agg(rty, [unit()], 0)
            event(E, st, 'too late ' + k, [d], None)
            return Agg(rty, [E.fresh(st, rty.args[1], 'elapsed')], 1)
        if n in ('wait_running', 'wait_idle'):
            event(E, st, 'forever ' + n, [], None)
            return unit()
        raise Unsupported('await of ' + n)

    def post(self, E, st, ret):
        kind, _ = case(E, st, self.style)
        ev = [(e[0], e[1]) for e in st.trace if e[0] in ('got', 'all', 'set') or e[0].split(' ')[-1] in ('wait_running', 'wait_idle')]
        names = [n for n, _ in ev]
        want = {'ShutdownOnIdle': [['got', 'set']],
                'TermThenKill': [['got', 'all', 'in time wait_running'], ['got', 'all', 'too late wait_running', 'all']],
                'Kill': [['got', 'all']]}[kind]
        if kind != 'ShutdownOnIdle':
            want = [w + [x, 'set'] for w in want for x in ('in time wait_idle', 'too late wait_idle')]
        if kind == 'TermThenKill':      # a second SIGKILL round when all have ended reaches nobody: also fine
            want += [['got', 'all', 'in time wait_running', 'all', x, 'set'] for x in ('in time wait_idle', 'too late wait_idle')]
        E.prove(st, z3.BoolVal(names in want), f'{kind}: the steps as documented, got {names}')
        if names not in want:
            return
        sigs = [a[0] for n, a in ev if n == 'all']
        exp = {'ShutdownOnIdle': [], 'TermThenKill': [15, 9], 'Kill': [9]}[kind][:len(sigs)]
        for s, w in zip(sigs, exp):
            E.prove(st, s == w, f'{kind}: signal {w}')
        final = {'ShutdownOnIdle': 'Idling'}.get(kind, 'Done')
        s = [a[0] for n, a in ev if n == 'set'][0]
        E.prove(st, self.Sh.is_(E.pack(st, s, SHUT), final), f'{kind}: shutdown state {final}')
        for n, a in ev:
            if n.endswith('wait_running') or n.endswith('wait_idle'):
                secs = 60 if n.endswith('running') else 5
                d = val(E, st, a[0])
                E.prove(st, (d if z3.is_real(d) else z3.ToReal(d)) == secs, f'{kind}: waits up to {secs} s')
        self.covered[{'ShutdownOnIdle': 'idle', 'Kill': 'kill'}.get(kind, 'term and kill' if len(sigs) == 2 else 'term')] = True


CONTRACTS = [First, FirstRunning, WaitRunning, WaitIdle, WaitForShutdown, NotiRecv, NotiMessage, SignalHandler]
