"""Results of a process: state, status, resource usage, times and descriptors."""
from ..contract import *
from ..std import *
from .procs import *
from .signals import SIGNALS
from .fd import SFH


class GetState(Contract):
    """get_state: error if anything failed, else running exactly until reaped, else terminated"""
    target = 'procs::Proc::get_state'
    covers = ('Error', 'Running', 'Terminated')

    def setup(self, E, st, f):
        self.ptr = z3.Int('proc_ptr')
        st.assume(self.ptr >= 0)
        self.pt = E.pack(st, E.load_ref(st, RefV(('h', PROC, self.ptr))), PROC)
        return [RefV(('h', PROC, self.ptr))]

    def post(self, E, st, ret):
        kind, _ = case(E, st, ret)
        self.covered[kind] = True
        errs = field(E, PROC, self.pt, 'errors')
        n = errs.sort().accessor(0, 0)(errs)
        reaped = is_some(field(E, PROC, self.pt, 'wait_info'))
        want = {'Error': n > 0, 'Running': z3.And(n == 0, z3.Not(reaped)), 'Terminated': z3.And(n == 0, reaped)}
        E.prove(st, want[kind], f'{kind} exactly when it should')


class StatusNew(Contract):
    """Status::new: the wait status decoded exactly: exit code, or signal number with its name if it has one and core dump flag"""
    target = 'res::Status::new'
    covers = ('exited', 'signal', 'unnamed', 'core')
    assumes = ['wait4 without WUNTRACED gives only exit and signal statuses; the WIFEXITED family is as in glibc']

    def setup(self, E, st, f):
        self.w = z3.Int('wait_status')
        st.assume(z3.And(self.w >= 0, self.w < 65536, self.w % 128 != 127, z3.Or(self.w % 128 != 0, self.w % 256 == 0), z3.Or(self.w % 128 == 0, self.w < 256)))
        return [self.w]

    def post(self, E, st, ret):
        w = self.w
        status_is(E, st, fields(E, st, ret), w)
        ex = w % 128 == 0
        for n, c in (('exited', ex), ('signal', w % 128 == 9), ('unnamed', w % 128 == 40), ('core', z3.And(w % 128 == 11, w >= 128))):
            if E.feasible(st, c):
                self.covered[n] = True


def status_is(E, st, f, w):
    opt = lambda n, t: E.pack(st, f[n], Ty('adt', 'Option', [t]))
    status_terms(E, st, dict(f, exit_code=opt('exit_code', I32), signum=opt('signum', I32), signal=opt('signal', STRING)), w, z3.BoolVal(True))


def status_terms(E, st, f, w, when):
    prove = lambda c, n: E.prove(st, z3.Implies(when, c), n)
    sig, ex = w % 128, w % 128 == 0
    prove(f['status'] == w, 'raw status')
    c, g, s = f['exit_code'], f['signum'], f['signal']
    prove(z3.And(is_some(c) == ex, z3.Implies(ex, some_of(c) == w / 256)), 'exit code exactly if it exited')
    prove(z3.And(is_some(g) == z3.Not(ex), z3.Implies(z3.Not(ex), some_of(g) == sig)), 'signal number exactly if a signal ended it')
    named = z3.And(z3.Not(ex), z3.Or([sig == k for k in SIGNALS.values()]))
    prove(z3.Implies(sig != 16, is_some(s) == named), 'signal name exactly if it has one')
    for n, k in SIGNALS.items():
        prove(z3.Implies(z3.And(named, sig == k), some_of(s) == z3.StringVal(n)), f'name of signal {k}')
    prove(f['core_dump'] == z3.And(z3.Not(ex), w >= 128), 'core dump flag')


USAGE = dict(minflt='ru_minflt', majflt='ru_majflt', nswap='ru_nswap', inblock='ru_inblock', oublock='ru_oublock', nvcsw='ru_nvcsw', nivcsw='ru_nivcsw')
USAGE_ASSUMES = ['floating point is treated as real arithmetic', 'resource counters of the kernel are non-negative and below 2^53']


class ResourceUsageNew(Contract):
    """ResourceUsage::new: each value the kernel's of the same name, times in seconds, memory in bytes"""
    target = 'res::ResourceUsage::new'
    covers = ('done',)
    assumes = USAGE_ASSUMES

    def setup(self, E, st, f):
        self.t = f.locals[f.args[0]].args[0]
        self.r = E.pack(st, E.fresh(st, self.t, 'rusage'), self.t)
        usage_range(E, st, self.t, self.r)
        return [E.ref_to(st, E.unpack(st, self.r, self.t), self.t)]

    def post(self, E, st, ret):
        self.covered['done'] = True
        usage_is(E, st, fields(E, st, ret), self.t, self.r)


def usage_range(E, st, t, r):
    for n in list(USAGE.values()) + ['ru_maxrss']:
        st.assume(z3.And(field(E, t, r, n) >= 0, field(E, t, r, n) < 1 << 53))


def usage_is(E, st, f, t, r, when=z3.BoolVal(True)):
    prove = lambda c, n: E.prove(st, z3.Implies(when, c), n)
    for n, k in USAGE.items():
        prove(f[n] == field(E, t, r, k), f'{n}: the kernel\'s counter')
    prove(f['maxrss'] == 1024 * field(E, t, r, 'ru_maxrss'), 'maxrss: in bytes')
    for n in ('utime', 'stime'):
        tv = field(E, t, r, 'ru_' + n)
        s = tv.sort()
        want = z3.ToReal(s.accessor(0, 0)(tv)) + z3.ToReal(s.accessor(0, 1)(tv)) / 1000000
        prove(f[n] == want, f'{n}: in seconds')


def fd_name(n):
    return z3.If(n == 0, z3.StringVal('stdin'), z3.If(n == 1, z3.StringVal('stdout'), z3.If(n == 2, z3.StringVal('stderr'), itoa(n))))


class ProcToResult(Contract):
    """Proc::to_result: state, errors and pid of the process; status and resource usage exactly if reaped, from what wait reported; recorded
    times if reaped, else up to now; the recorded statistics if any, else the current ones of this pid; each descriptor under its name"""
    target = 'procs::Proc::to_result'
    covers = ('reaped', 'not reaped', 'recorded', 'loaded', 'fd', 'stop')
    assumes = USAGE_ASSUMES + ['SharedFdHandler::get_result, ProcStat::load_or_log and ProcStatm::load_or_log as under their own contracts']

    def overrides(self, E):
        d = {}

        def get_result(E, st, c):
            v = val(E, st, c.args[0])
            t = E.pack(st, v, SFH)
            self.rty = c.dty
            return E.unpack(st, z3.Function('get_result', t.sort(), E.sort(c.dty))(t), c.dty)

        def load(E, st, c):
            return E.unpack(st, z3.Function(c.cal.name if hasattr(c.cal, 'name') else str(c.dty), I, E.sort(c.dty))(c.args[0]), c.dty)
        d['SharedFdHandler::get_result'] = get_result
        for n in ('ProcStat', 'ProcStatm'):
            def load(E, st, c, n=n):
                return E.unpack(st, z3.Function('load_' + n, I, E.sort(c.dty))(c.args[0]), c.dty)
            d[n + '::load_or_log'] = load
        return d

    def setup(self, E, st, f):
        self.ptr = z3.Int('proc_ptr')
        st.assume(self.ptr >= 0)
        self.pt = E.pack(st, E.load_ref(st, RefV(('h', PROC, self.ptr))), PROC)
        self.F = lambda n: field(E, PROC, self.pt, n)
        st.assume(E.in_range(self.F('pid'), 'i32'))
        self.wi = some_of(self.F('wait_info'))
        ws = self.wi.sort()
        self.w, self.ru = ws.accessor(0, 1)(self.wi), ws.accessor(0, 2)(self.wi)
        w = self.w
        st.assume(z3.Implies(is_some(self.F('wait_info')), z3.And(w >= 0, w < 65536, w % 128 != 127, z3.Or(w % 128 != 0, w % 256 == 0), z3.Or(w % 128 == 0, w < 256))))
        wty = fty(E, PROC, 'wait_info').args[0]
        self.rut = wty.args[2]
        usage_range(E, st, self.rut, self.ru)
        # descriptors: prefix functions for the probe name
        self.x = z3.String('fd_probe')
        self.probes = [self.x]
        hs = self.F('fd_handlers')
        self.vec = E._unvec(st, hs, fty(E, PROC, 'fd_handlers').args[0])
        self.FH = z3.Function('FH', I, B)
        st.assume(z3.Not(self.FH(0)))
        self.FW = z3.Function('FW', I, I)      # index of the last entry under this name
        return [RefV(('h', PROC, self.ptr))]

    def entry(self, E, i):
        t = z3.Select(self.vec.arr, i)
        return t.sort().accessor(0, 0)(t), t.sort().accessor(0, 1)(t)

    def on_item(self, E, st, it, i):
        if it.kind != 'seq' or it.vec.arr is None or not it.vec.arr.eq(self.vec.arr):
            return
        n, _ = self.entry(E, i)
        hit = fd_name(n) == self.x
        st.assume(self.FH(i + 1) == z3.Or(hit, self.FH(i)))
        st.assume(self.FW(i + 1) == z3.If(hit, i, self.FW(i)))
        st.assume(E.in_range(n, 'i32'))

    def expected(self, E, w, vsort):
        _, h = self.entry(E, w)
        RT = Ty('adt', 'Result', [Ty('adt', 'Option', [Ty('adt', 'res::FdRes')]), Ty('adt', 'err::Error')])
        r = z3.Function('get_result', h.sort(), E.sort(self.rty))(h)
        rs = r.sort()
        FR = Enum(E, Ty('adt', 'res::FdRes'))
        return z3.If(rs.recognizer(0)(r), rs.accessor(0, 0)(r), vsort.constructor(1)(FR.mk('Error')))

    def loop_inv(self, L):
        out = {}
        E, x = L.E, self.x
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') != 'seq' or it.vec.arr is None or not it.vec.arr.eq(self.vec.arr):
                continue
            for mk in L.values(MapV):
                out[f'fds {mk[1]}{ik[1]} has'] = lambda st, mk=mk, ik=ik: z3.Select(L.get(st, mk).has, x) == self.FH(L.get(st, ik))

                def vals(st, mk=mk, ik=ik):
                    m = L.get(st, mk)
                    v = z3.Select(m.val, x)
                    return z3.Implies(z3.Select(m.has, x), v == self.expected(E, self.FW(L.get(st, ik)), v.sort())) if hasattr(self, 'rty') else z3.BoolVal(True)
                out[f'fds {mk[1]}{ik[1]} val'] = vals
        return out

    def post(self, E, st, ret):
        f, F, pt = fields(E, st, ret), self.F, self.pt
        reaped = is_some(F('wait_info'))
        opt = lambda n: E.pack(st, f[n], fty(E, PRES, n))
        kind, _ = case(E, st, f['state'])
        errs = F('errors')
        ne = errs.sort().accessor(0, 0)(errs)
        want = {'Error': ne > 0, 'Running': z3.And(ne == 0, z3.Not(reaped)), 'Terminated': z3.And(ne == 0, reaped)}
        E.prove(st, want[kind], f'{kind} exactly when it should')
        E.prove(st, E.pack(st, f['errors'], fty(E, PRES, 'errors')) == errs, 'the errors of the process')
        E.prove(st, f['pid'] == F('pid'), 'the pid of the process')
        status, ru, ps, pm = opt('status'), opt('rusage'), opt('proc_stat'), opt('proc_statm')
        E.prove(st, z3.And(is_some(status) == reaped, is_some(ru) == reaped), 'status and resource usage exactly if reaped')
        if E.feasible(st, reaped):
            self.covered['reaped'] = True
            s2 = st.fork() if hasattr(st, 'fork') else st
            ST, RU = fty(E, PRES, 'status').args[0], fty(E, PRES, 'rusage').args[0]
            stt, rut = some_of(status), some_of(ru)
            g = {n: field(E, ST, stt, n) for n, _ in E.db.info(ST).fields}
            status_terms(E, st, g, self.w, reaped)
            g = {n: field(E, RU, rut, n) for n, _ in E.db.info(RU).fields}
            usage_is(E, st, g, self.rut, self.ru, reaped)
            E.prove(st, z3.Implies(reaped, z3.Not(is_some(pm))), 'no memory statistics after the end')
        if E.feasible(st, z3.Not(reaped)):
            self.covered['not reaped'] = True
            E.prove(st, z3.Implies(z3.Not(reaped), pm == z3.Function('load_ProcStatm', I, pm.sort())(F('pid'))), 'memory statistics of this pid while running')
        rec = F('proc_stat')
        E.prove(st, ps == z3.If(is_some(rec), rec, z3.Function('load_ProcStat', I, ps.sort())(F('pid'))), 'recorded statistics, else the current ones of this pid')
        for n, c in (('recorded', is_some(rec)), ('loaded', z3.Not(is_some(rec))), ('stop', is_some(F('stop_time')))):
            if E.feasible(st, c):
                self.covered[n] = True
        # times
        t = fields(E, st, f['times'])
        dt = lambda x: z3.Function('rfc3339', x.sort(), S)(x)
        E.prove(st, val(E, st, t['start']) == dt(F('start_time')), 'start time')
        so = E.pack(st, t['stop'], Ty('adt', 'Option', [STRING]))
        fs = F('stop_time')
        E.prove(st, z3.And(is_some(so) == is_some(fs), z3.Implies(is_some(fs), some_of(so) == dt(some_of(fs)))), 'stop time exactly if recorded')
        nows = [e for e in st.trace if e[0] == 'now']
        utc = [pack_any(E, st, e[2]) for e in nows if getattr(e[2], 'ty', None) is not None and e[2].ty.last == 'DateTime']
        ins = [pack_any(E, st, e[2]) for e in nows if getattr(e[2], 'ty', None) is not None and e[2].ty.last == 'Instant']
        E.prove(st, z3.Or([val(E, st, t['now']) == dt(u) for u in utc] or [z3.BoolVal(False)]), 'the current time')
        el = F('elapsed')
        inst = lambda x: z3.Function('instant', x.sort(), R)(x)
        s0 = inst(F('start_instant'))
        diff = [t['elapsed'] == z3.If(inst(i) >= s0, inst(i) - s0, z3.RealVal(0)) for i in ins]
        E.prove(st, z3.If(is_some(el), t['elapsed'] == some_of(el), z3.Or(diff or [z3.BoolVal(False)])), 'recorded elapsed time, else from the start to now')
        # descriptors
        m = f['fds']
        n = self.vec.length()
        E.prove(st, z3.Select(m.has, self.x) == self.FH(n), 'a result for each descriptor under its name and no other')
        v = z3.Select(m.val, self.x)
        if E.feasible(st, self.FH(n)):
            self.covered['fd'] = True
            E.prove(st, z3.Implies(self.FH(n), v == self.expected(E, self.FW(n), v.sort())), 'being the result of its handler, or an error')
        E.prove(st, E.pack(st, E.load_ref(st, RefV(('h', PROC, self.ptr))), PROC) == pt, 'the process is unchanged')


PRES = Ty('adt', 'res::ProcRes')

CONTRACTS = [GetState, StatusNew, ResourceUsageNew, ProcToResult]
