"""Reaping: every started process is waited for by its own task, and its fate recorded once."""
from ..contract import *
from ..std import *
from .procs import *

RELY = 'the results of a process are written by its own task only, and its pid and start time by nobody (checked for the functions under contract)'
STAT = Ty('adt', 'procinfo::ProcStat')


class WaitForProc(Contract):
    """wait_for_proc: a nonblocking wait for exactly this pid after every child signal, until it has ended; then, once, its status and usage, the
    statistics read last before, the stop time and the elapsed time are recorded.  Until then nothing is."""
    target = 'procs::wait_for_proc'
    covers = ('reaped', 'retried')
    assumes = [RELY, 'sys::wait as under its own contract (C21)', 'no borrow of the process is held by a caller',
               'the receiver of child signals given has not taken note of one since before the fork (see StartProcs)']

    def overrides(self, E):
        def wait(E, st, c):
            g = st.ghost
            E.prove(st, c.args[0] == self.pid, 'waits for exactly this pid')
            E.prove(st, z3.Not(c.args[1]), 'does not block the other tasks')
            E.prove(st, z3.Not(g['reaped']), 'never waits again once reaped')
            g['tried'] = z3.BoolVal(True)
            if E.decide(st, E.fresh_const(B, 'ended')):
                g['reaped'] = z3.BoolVal(True)
                event(E, st, 'reaped', [], None)
                w = E.fresh(st, c.dty.args[0], 'waited')
                g['waited'] = E.pack(st, w, c.dty.args[0])
                return Agg(c.dty, [w], 1)
            self.covered['retried'] = True
            return Agg(c.dty, [], 0)

        def load(E, st, c):
            E.prove(st, c.args[0] == self.pid, 'statistics of this process')
            v = E.fresh(st, c.dty, 'loaded')
            st.ghost['stat'] = z3.If(st.ghost['reaped'], st.ghost['stat'], E.pack(st, v, c.dty))
            return v
        d = {n: wait for n in ('sys::wait', 'wait')}
        d['ProcStat::load_or_log'] = load
        return d

    def setup(self, E, st, f):
        self.ptr = z3.Int('proc_ptr')
        st.assume(self.ptr >= 0)
        E.load_ref(st, RefV(('h', PROC, self.ptr)))
        t = self.cur(E, st)
        self.pid = field(E, PROC, t, 'pid')
        self.start = field(E, PROC, t, 'start_instant')
        g = st.ghost
        self.rely(E, st)
        g['tried'] = z3.BoolVal(True)
        g['reaped'] = z3.BoolVal(False)
        g['stat'] = z3.Const('stat0', E.sort(fty(E, PROC, 'proc_stat')))
        g['waited'] = z3.Const('waited0', E.sort(fty(E, PROC, 'wait_info').args[0]))
        g['base'] = self.cur(E, st)
        return [rc_value(E, st, f.locals[f.args[0]], self.ptr) if False else RcV(PROC, self.ptr), E.fresh(st, f.locals[f.args[1]], 'receiver')]

    def cur(self, E, st):
        return E.pack(st, E.load_ref(st, RefV(('h', PROC, self.ptr))), PROC)

    RESULTS = ('wait_info', 'proc_stat', 'stop_time', 'elapsed')

    def rely(self, E, st):
        t = self.cur(E, st)
        st.assume(z3.And(field(E, PROC, t, 'pid') == self.pid, field(E, PROC, t, 'start_instant') == self.start,
                         *[z3.Not(is_some(field(E, PROC, t, n))) for n in self.RESULTS]))

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'watch_changed':
            raise Unsupported('await of ' + fut.a['name'])
        g = st.ghost
        E.prove(st, g['tried'], 'every child signal is followed by a wait for this pid')
        E.prove(st, z3.Not(g['reaped']), 'nothing more to wait for once reaped')
        E.prove(st, self.cur(E, st) == g['base'], 'nothing is recorded before it has ended')
        havoc_shared(E, st)
        self.rely(E, st)
        g['base'] = self.cur(E, st)
        g['tried'] = z3.BoolVal(False)
        return Agg(rty, [unit()], 0)

    def loop_inv(self, L):
        E = L.E
        out = {'tried': lambda st: st.ghost['tried'], 'not reaped': lambda st: z3.Not(st.ghost['reaped']),
               'unchanged': lambda st: self.cur(E, st) == st.ghost['base'],
               'pid': lambda st: field(E, PROC, st.ghost['base'], 'pid') == self.pid,
               'start': lambda st: field(E, PROC, st.ghost['base'], 'start_instant') == self.start}
        for n in self.RESULTS:
            out[n] = lambda st, n=n: z3.Not(is_some(field(E, PROC, st.ghost['base'], n)))
        for k in L.values((z3.ArithRef,)):
            out[f'pid {k}'] = lambda st, k=k: L.get(st, k) == self.pid
        return out

    def post(self, E, st, ret):
        g = st.ghost
        t = self.cur(E, st)
        F = lambda n: field(E, PROC, t, n)
        E.prove(st, g['reaped'], 'ends only once the process is reaped')
        self.covered['reaped'] = True
        after = []
        for e in st.trace:
            if e[0] == 'reaped':
                after = []
            else:
                after.append(e)
        E.prove(st, z3.And(is_some(F('wait_info')), some_of(F('wait_info')) == g['waited']), 'the status and usage the wait gave are recorded')
        E.prove(st, F('proc_stat') == g['stat'], 'the statistics read last before it was reaped are recorded')
        kind = lambda e, k: e[0] == 'now' and k in str(getattr(e[2], 'ty', ''))
        nows = [E.pack(st, e[2], fty(E, PROC, 'stop_time').args[0]) for e in after if kind(e, 'DateTime')]
        E.prove(st, z3.And(is_some(F('stop_time')), z3.Or([z3.BoolVal(False)] + [some_of(F('stop_time')) == n for n in nows])), 'the time it was reaped is recorded')
        ins = [instant(E, st, e[2]) for e in after if kind(e, 'Instant')]
        s = z3.Function('instant', self.start.sort(), R)(self.start)
        el = some_of(F('elapsed'))
        E.prove(st, z3.And(is_some(F('elapsed')), z3.Or([z3.BoolVal(False)] + [el == z3.If(i >= s, i - s, z3.RealVal(0)) for i in ins])),
                'the time from start to reaping is recorded')
        for n, _ in E.db.info(PROC).fields:
            if n not in self.RESULTS:
                E.prove(st, F(n) == field(E, PROC, g['base'], n), f'{n} is left alone')


class RunProc(Contract):
    """run_proc: waits for exactly the given process and reads exactly the given error pipe, each once, and returns only when both are done; what the
    pipe gave is appended to the errors of that process, in order, and nothing else about it changed"""
    target = 'procs::run_proc'
    covers = ('done',)
    assumes = [RELY, 'wait_for_proc and ErrorPipe::in_parent as under their own contracts', 'a task spawned is run, and awaiting it waits for its end']

    def overrides(self, E):
        def fut(name):
            return lambda E, st, c: PyV('future', name=name, args=tuple(c.args), dty=c.dty)

        def spawn(E, st, c):
            done = []
            for s, v in E.forked(st.copy(), lambda z: self.go(E, z, c.args[0])):
                self.settled(E, s)
                done.append((s.ghost['waits'], s.ghost['reads']))
            if not done:
                raise Unsupported('a task that never ends')
            w, r = done[0]
            for a, b in done[1:]:
                E.prove(st, z3.And(a == w, b == r), 'a task does the same on every path')
            w, r = simp(w - st.ghost['waits']), simp(r - st.ghost['reads'])
            st.ghost['started'] = simp(st.ghost['started'] + 1)
            self.n += 1
            return PyV('future', name='join', args=(self.n, w, r), dty=c.dty)
        d = {'procs::wait_for_proc': fut('wait_for_proc'), 'ErrorPipe::in_parent': fut('in_parent'), 'task::spawn_local': spawn, 'task::spawn': spawn, 'tokio::spawn': spawn}
        return d

    def go(self, E, st, fut):
        if isinstance(fut, PyV) and fut.kind == 'future':
            self.on_await(E, st, fut, UNIT)
            return [(st, unit())]
        if isinstance(fut, ClosV):
            return E.run_async(st, fut)
        raise Unsupported(f'spawned {fut}')

    def setup(self, E, st, f):
        self.n = 0
        self.ptr = z3.Int('proc_ptr')
        st.assume(self.ptr >= 0)
        E.load_ref(st, RefV(('h', PROC, self.ptr)))
        self.rcv = E.fresh(st, f.locals[f.args[1]], 'receiver')
        self.pipe = E.fresh(st, f.locals[f.args[2]], 'error_pipe')
        self.ptys = (f.locals[f.args[1]], f.locals[f.args[2]])
        self.keys = [E.pack(st, self.rcv, self.ptys[0]), E.pack(st, self.pipe, self.ptys[1])]
        self.k = z3.Int('probe_index')
        g = st.ghost
        for n in ('waits', 'reads', 'started', 'joined'):
            g[n] = z3.IntVal(0)
        g['due'] = None
        return [RcV(PROC, self.ptr), self.rcv, self.pipe]

    cur = WaitForProc.cur

    def settled(self, E, st):
        """what the pipe gave has been appended by now"""
        g = st.ghost
        if g['due'] is None:
            return
        old, new = g['due']
        g['due'] = None
        t = self.cur(E, st)
        for n, _ in E.db.info(PROC).fields:
            if n != 'errors':
                E.prove(st, field(E, PROC, t, n) == field(E, PROC, old, n), f'{n} is left alone')
        a, b, c = field(E, PROC, old, 'errors'), new, field(E, PROC, t, 'errors')
        s = c.sort()
        ln, ar = (lambda v: s.accessor(0, 0)(v)), (lambda v: s.accessor(0, 1)(v))
        E.prove(st, ln(c) == ln(a) + ln(b), 'each error is appended once')
        k = self.k
        E.prove(st, z3.Implies(z3.And(k >= 0, k < ln(a)), z3.Select(ar(c), k) == z3.Select(ar(a), k)), 'earlier errors stay')
        E.prove(st, z3.Implies(z3.And(k >= 0, k < ln(b)), z3.Select(ar(c), ln(a) + k) == z3.Select(ar(b), k)), 'the errors of the pipe follow in order')

    def on_await(self, E, st, fut, rty):
        g = st.ghost
        self.settled(E, st)
        n, a = fut.a['name'], fut.a['args']
        if n == 'wait_for_proc':
            E.prove(st, val(E, st, a[0]).ptr == self.ptr, 'waits for the given process')
            E.prove(st, E.pack(st, a[1], self.ptys[0]) == self.keys[0], 'with the given receiver of child signals')
            g['waits'] = simp(g['waits'] + 1)
            havoc_shared(E, st)
            return unit()
        if n == 'in_parent':
            E.prove(st, E.pack(st, a[0], self.ptys[1]) == self.keys[1], 'reads the given pipe')
            g['reads'] = simp(g['reads'] + 1)
            havoc_shared(E, st)
            t = fty(E, PROC, 'errors')
            v = E.fresh(st, t, 'errors')
            p = E.pack(st, v, t)
            st.assume(p.sort().accessor(0, 0)(p) <= 1 << 32)
            for x in (p, field(E, PROC, self.cur(E, st), 'errors')):
                st.assume(z3.And(x.sort().accessor(0, 0)(x) >= 0, x.sort().accessor(0, 0)(x) <= 1 << 40))
            g['due'] = (self.cur(E, st), p)
            return v
        if n == 'join':
            g['joined'] = simp(g['joined'] + 1)
            g['waits'], g['reads'] = simp(g['waits'] + a[1]), simp(g['reads'] + a[2])
            havoc_shared(E, st)
            return Agg(rty, [unit()], 0)
        raise Unsupported('await of ' + n)

    def post(self, E, st, ret):
        g = st.ghost
        self.settled(E, st)
        self.covered['done'] = True
        E.prove(st, g['waits'] == 1, 'returns once the process has been waited for, once')
        E.prove(st, g['reads'] == 1, 'returns once its error pipe has been read, once')


SIGNALS = 'signal(2) registration succeeds (else the agent does not start); a stream of signals yields once after each arrival, arrivals meanwhile coalesced'


class WatchNew(Contract):
    """SignalWatcher::new: listens for that signal from now on; the watcher and the receiver share one channel"""
    target = 'sig::SignalWatcher::new'
    covers = ('done',)
    assumes = [SIGNALS]

    def overrides(self, E):
        def signal(E, st, c):
            E.prove(st, E.pack(st, c.args[0], self.kty) == self.kind, 'listens for the given signal')
            st.ghost['listens'] = simp(st.ghost['listens'] + 1)
            v = E.fresh(st, c.dty.args[0], 'stream')
            self.stream = pack_any(E, st, v)
            return Agg(c.dty, [v], 0)

        def channel(E, st, c):
            st.ghost['channels'] = simp(st.ghost['channels'] + 1)
            fs = [E.fresh(st, t, 'end') for t in c.dty.args]
            self.ends = [pack_any(E, st, v) for v in fs]
            return Agg(c.dty, fs)
        d = {p + 'signal': signal for p in ('', 'unix::', 'tokio::signal::unix::', 'signal::unix::')}
        d.update({p + 'channel': channel for p in ('', 'watch::', 'sync::watch::')})
        return d

    def setup(self, E, st, f):
        st.ghost['listens'] = st.ghost['channels'] = z3.IntVal(0)
        self.kty = f.locals[f.args[0]]
        k = E.fresh(st, self.kty, 'kind')
        self.kind = E.pack(st, k, self.kty)
        return [k]

    def post(self, E, st, ret):
        self.covered['done'] = True
        w, r = list(fields(E, st, ret).values())
        E.prove(st, z3.And(st.ghost['listens'] == 1, st.ghost['channels'] == 1), 'listens once, before returning, and makes one channel')
        fs = fields(E, st, w)
        E.prove(st, pack_any(E, st, fs['stream']) == self.stream, 'the watcher gets the stream of signals')
        E.prove(st, pack_any(E, st, fs['sender']) == self.ends[0], 'the watcher gets the sending end')
        E.prove(st, pack_any(E, st, list(fields(E, st, r).values())[0]) == self.ends[1], 'the receiver gets the other end')


class Watch(Contract):
    """SignalWatcher::watch: every signal received is passed on before the next is awaited; ends only when nobody listens any more"""
    target = 'sig::SignalWatcher::watch'
    covers = ('done',)
    assumes = [SIGNALS, 'a watch send fails exactly if no receiver is left']

    def overrides(self, E):
        def send(E, st, c):
            E.prove(st, z3.Not(st.ghost['deaf']), 'not sent again once nobody listens')
            st.ghost['pending'] = z3.BoolVal(False)
            if E.decide(st, E.fresh_const(B, 'heard')):
                return Agg(c.dty, [unit()], 0)
            st.ghost['deaf'] = z3.BoolVal(True)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'senderr')], 1)
        return {p + 'Sender::send': send for p in ('', 'watch::')}

    def setup(self, E, st, f):
        for n in ('pending', 'deaf'):
            st.ghost[n] = z3.BoolVal(False)
        return [E.fresh(st, f.locals[f.args[0]], 'watcher')]

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'signal_recv':
            raise Unsupported('await of ' + fut.a['name'])
        E.prove(st, z3.Not(st.ghost['pending']), 'every signal received is passed on')
        E.prove(st, z3.Not(st.ghost['deaf']), 'ends once nobody listens')
        st.ghost['pending'] = z3.BoolVal(True)
        return Agg(rty, [unit()], 1)

    def loop_inv(self, L):
        return {'passed on': lambda st: z3.Not(st.ghost['pending']), 'heard': lambda st: z3.Not(st.ghost['deaf'])}

    def post(self, E, st, ret):
        self.covered['done'] = True
        E.prove(st, st.ghost['deaf'], 'ends only when nobody listens')


class ReceiverSignal(Contract):
    """SignalReceiver::signal: returns after one signal that it has not reported yet, without missing any"""
    target = 'sig::SignalReceiver::signal'
    covers = ('done',)
    assumes = ['the watcher runs as long as there are receivers (see Watch)', 'watch::Receiver::changed reports each change since the last it reported']

    def setup(self, E, st, f):
        st.ghost['n'] = z3.IntVal(0)
        t = f.locals[f.args[0]].args[0]
        self.r = E.fresh(st, t, 'receiver')
        self.r0 = pack_any(E, st, list(fields(E, st, self.r).values())[0])
        return [E.ref_to(st, self.r, t, True)]

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'watch_changed':
            raise Unsupported('await of ' + fut.a['name'])
        E.prove(st, pack_any(E, st, val(E, st, fut.a['args'][0])) == self.r0, 'on its own channel')
        st.ghost['n'] = simp(st.ghost['n'] + 1)
        return Agg(rty, [unit()], 0)

    def post(self, E, st, ret):
        self.covered['done'] = True
        E.prove(st, st.ghost['n'] == 1, 'takes one signal')


CONTRACTS = [WaitForProc, RunProc, WatchNew, Watch, ReceiverSignal]
