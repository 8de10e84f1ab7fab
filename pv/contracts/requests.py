"""Requests of the server: what each does, and the reply to it."""
from ..contract import *
from ..std import *
from .procs import *
from .validate import OK, NUM
from .waits import result_override, MSG

INMSG = Ty('adt', 'proto::IncomingMessage')
FDDATA = Ty('adt', 'fd::FdData')
RESULT = Ty('adt', 'res::ProcRes')


def same(E, st, a, b, ty):
    return E.pack(st, a, ty) == E.pack(st, b, ty)


def listed(c, E, st, ids, m, what):
    """the vector holds exactly the keys of the map, each once"""
    a, n = E.vec_arr(st, ids), ids.length()
    i, j = c.i1, c.i2
    x, y = z3.Select(a, i), z3.Select(a, j)
    for k in (x, y):
        map_wf_at(E, st, m, k)
    E.prove(st, n == m.size, f'{what}: as many ids as processes')
    E.prove(st, z3.Implies(z3.And(i >= 0, i < n), z3.Select(m.has, x)), f'{what}: each a registered process')
    E.prove(st, z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), x != y), f'{what}: each once')


class GetFdData(Base):
    """Proc::get_fd_data: asks the handler of exactly that fd for exactly that range and gives back what it gives; an fd without handler is an error"""
    target = 'procs::Proc::get_fd_data'
    covers = ('data', 'none')
    assumes = ASSUMES + ['SharedFdHandler::get_data as under its own contract (C02)']

    def overrides(self, E):
        d = super().overrides(E)

        def get_data(E, st, c):
            ref, v = target(E, st, c.args[0])
            while isinstance(v, (Agg, Sym)):
                v = list(fields(E, st, v).values())[0]
            r = E.fresh(st, c.dty, 'got')
            event(E, st, 'get_data', [v.ptr, c.args[1], c.args[2]], r)
            return r
        d['SharedFdHandler::get_data'] = get_data
        return d

    def setup(self, E, st, f):
        self.base_setup(E, st)
        self.rptr = z3.Int('proc_ptr')
        st.assume(self.rptr >= 0)
        self.pt = self.proc(E, st, self.rptr)
        self.fd, self.start = z3.Ints('fd start')
        st.assume(z3.And(E.in_range(self.fd, 'i32'), E.in_range(self.start, 'usize')))
        self.stop = E.fresh(st, f.locals[f.args[3]], 'stop')
        self.i = z3.Int('i')
        return [RefV(('h', PROC, self.rptr)), self.fd, self.start, self.stop]

    def handler(self, i):
        v = field(self.E, PROC, self.pt, 'fd_handlers')
        t = z3.Select(v.sort().accessor(0, 1)(v), i)
        h = t.sort().accessor(0, 1)(t)
        while not z3.is_int(h):
            h = h.sort().accessor(0, 0)(h)
        return v.sort().accessor(0, 0)(v), t.sort().accessor(0, 0)(t), h

    def loop_inv(self, L):
        self.E = L.E
        out = {}
        n, fd, _ = self.handler(self.i)
        for ik in L.iters():
            out[f'none before {ik[1]}'] = lambda st, ik=ik: z3.Implies(z3.And(self.i >= 0, self.i < L.get(st, ik)), fd != self.fd)
        return out

    def post(self, E, st, ret):
        self.E = E
        ev = [e for e in st.trace if e[0] == 'get_data']
        n, fd, h = self.handler(self.i)
        there = z3.And(self.i >= 0, self.i < n, fd == self.fd)
        self.procs_unchanged(E, st, self.rptr, self.pt)
        if ev:
            self.covered['data'] = True
            E.prove(st, z3.BoolVal(len(ev) == 1), 'one handler is asked')
            x, ret0 = ev[0][1], ev[0][2]
            j = z3.Int('j')
            nj, fj, hj = self.handler(j)
            E.prove(st, z3.Exists([j], z3.And(j >= 0, j < nj, fj == self.fd, hj == x[0])), 'the handler of that fd')
            E.prove(st, z3.And(x[1] == self.start, eqv(E, st, x[2], self.stop)), 'for exactly that range')
            E.prove(st, pack_any(E, st, ret) == pack_any(E, st, ret0), 'what it gives is given')
        else:
            self.covered['none'] = True
            E.prove(st, z3.Not(there), 'no handler is asked only if there is none for that fd')
            _, _, vi, fs = variant(E, st, ret)
            E.prove(st, z3.BoolVal(vi == 1), 'an fd without handler is an error')


class HandleIncoming(Base):
    """handle_incoming: exactly the operation asked for, and the documented reply to it"""
    target = 'proto::handle_incoming'
    covers = ('Registered', 'start', 'start failed', 'list', 'result', 'result unknown', 'signal', 'signal failed', 'signal unknown', 'data', 'data failed',
              'data unknown', 'delete', 'delete failed', 'delete unknown')
    assumes = ASSUMES + ['callees keep their contracts: start_procs, Proc::to_result, send_signal, get_fd_data, remove_if_not_running, parse_fd',
                         'captured data is shorter than 2^63 bytes']

    def overrides(self, E):
        d = super().overrides(E)

        def start(E, st, c):
            ok = E.decide(st, E.fresh_const(B, 'started'))
            m = val(E, st, c.args[0])
            ptr = list(fields(E, st, val(E, st, c.args[1])).values())[0].ptr
            event(E, st, 'start', [E.pack(st, m, self.specs_t) if hasattr(self, 'specs_t') else m, ptr, ok], None)
            havoc_shared(E, st)
            st.ghost['m'] = self.map(E, st)
            return Agg(c.dty, [E.fresh(st, c.dty.args[0 if ok else 1], 'startr')], 0 if ok else 1)

        def signal(E, st, c):
            ref, v = target(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'signalled'))
            event(E, st, 'signal', [self.which(E, st, ref, v), c.args[1], ok], None)
            return Agg(c.dty, [unit()], 0) if ok else Agg(c.dty, [E.fresh(st, c.dty.args[1], 'sigerr')], 1)

        def data(E, st, c):
            ref, v = target(E, st, c.args[0])
            r = E.fresh(st, c.dty, 'fddata')
            _, _, vi, fs = variant(E, st, r)
            if vi == 0:
                _, _, oi, od = variant(E, st, fs[0])
                if oi == 1:
                    n = val(E, st, fields(E, st, od[0])['data']).length()
                    st.assume(z3.And(n >= 0, z3.Or(n == 0, z3.And(c.args[2] + n < 1 << 63))))
            event(E, st, 'data', [self.which(E, st, ref, v), c.args[1], c.args[2], c.args[3]], r)
            return r

        def remove(E, st, c):
            ref, v = target(E, st, c.args[0])
            ptr = list(fields(E, st, v).values())[0].ptr
            id = val(E, st, c.args[1])
            has = z3.Select(self.map(E, st).has, id)
            ok = E.decide(st, z3.And(has, E.fresh_const(B, 'removed')))
            event(E, st, 'delete', [ptr, id, ok], None)
            et = c.dty.args[1]
            if ok:
                r = E.fresh(st, c.dty.args[0], 'removed')
                return Agg(c.dty, [r], 0)
            e = Enum(E, et)
            if E.decide(st, has):
                t = e.mk('ProcRunning', id)
            else:
                t = e.mk('NoProcId', id)
            return Agg(c.dty, [E.unpack(st, t, et)], 1)

        def parse(E, st, c):
            s = str_val(E, st, c.args[0]) if 'str_val' in globals() else val(E, st, c.args[0])
            if E.decide(st, OK(s)):
                n = NUM(s)
                st.assume(E.in_range(n, 'i32'))
                return Agg(c.dty, [n], 0)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'badfd')], 1)
        d['start_procs'] = d['procs::start_procs'] = start
        d['Proc::send_signal'] = signal
        d['Proc::get_fd_data'] = data
        d['SharedProcs::remove_if_not_running'] = remove
        d['parse_fd'] = d['spec::parse_fd'] = parse
        d['Proc::to_result'] = result_override
        return d

    def which(self, E, st, ref, v):
        if isinstance(ref, RefV) and ref.root[0] == 'h':
            return ref.root[2]
        raise Unsupported('a process outside the set')

    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.M = Enum(E, INMSG)
        self.msg = z3.Const('msg', E.sort(INMSG))
        M = self.M
        self.id = z3.String('id')
        for n in ('ProcResultRequest', 'ProcSignalRequest', 'ProcFdDataRequest', 'ProcDeleteRequest'):
            st.assume(z3.Implies(M.is_(self.msg, n), self.f(E, n, 'proc_id') == self.id))
        map_wf_at(E, st, self.m0, self.id)
        self.rptr = self.ptr_of(self.m0, self.id)
        st.assume(z3.Implies(z3.Select(self.m0.has, self.id), self.rptr >= 0))
        self.pt = self.proc(E, st, self.rptr)
        self.i1, self.i2 = z3.Ints('i1 i2')
        st.ghost['m'] = self.m0
        return [r, E.unpack(st, self.msg, INMSG)]

    def f(self, E, n, x):
        vi = self.M.vi[n]
        k = [a for a, _ in self.M.info.variants[vi][2]].index(x)
        return self.M.s.accessor(vi, k)(self.msg)

    def loop_inv(self, L):
        E, out = L.E, {}
        for ik in L.iters():
            it = L.iter_of(L.entry, ik)
            if getattr(it, 'kind', '') != 'map':
                continue
            for k in L.values(VecV, lambda v: str(v.ety) == 'String'):
                n, a = lambda st, k=k: L.get(st, k).length(), lambda st, i, k=k: z3.Select(E.vec_arr(st, L.get(st, k)), i)
                for i in (self.i1, self.i2):
                    out[f'listed {i} {k[1]}{ik[1]}'] = lambda st, a=a, n=n, i=i, ik=ik, m=it.m: z3.Implies(
                        z3.And(i >= 0, i < n(st)), z3.And(z3.Select(m.has, a(st, i)), z3.Select(m.pos, a(st, i)) < L.get(st, ik)))
                out[f'distinct {k[1]}{ik[1]}'] = lambda st, a=a, n=n: z3.Implies(
                    z3.And(self.i1 >= 0, self.i1 < n(st), self.i2 >= 0, self.i2 < n(st), self.i1 != self.i2), a(st, self.i1) != a(st, self.i2))
                out[f'count {k[1]}{ik[1]}'] = lambda st, n=n, ik=ik: n(st) == L.get(st, ik)
        return out

    def post(self, E, st, ret):
        M, msg = self.M, self.msg
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), n)
        kind = [n for n in M.vi if E.feasible(st, M.is_(msg, n))]
        if len(kind) != 1:
            raise Unsupported('one path for several requests')
        kind = kind[0]
        _, _, vi, fs = variant(E, st, ret)
        reply, rf = case(E, st, fs[0]) if vi == 1 else (None, {})
        ops = [e for e in st.trace if e[0] in ('start', 'signal', 'data', 'delete')]
        names = [e[0] for e in ops]
        has = z3.Select(self.m0.has, self.id)
        m = self.map(E, st)
        x = ops[0][1] if ops else None

        def error():
            P(reply == 'RequestError', f'{kind}: an error reply')
            if reply == 'RequestError':
                P(E.pack(st, rf['msg'], INMSG) == msg, f'{kind}: the error carries the request')

        def unknown():
            P(reply == 'ProcUnknown', f'{kind}: an unknown-process reply')
            if reply == 'ProcUnknown':
                P(val(E, st, rf['proc_id']) == self.id, f'{kind}: naming the process')
        if kind != 'ProcStartRequest':
            self.map_is(E, st, m, z3.Select(self.m0.has, self.p), self.ptr_of(self.m0, self.p), f'{kind}: the processes')
            self.notified(E, st, kind, shut=(z3.BoolVal(False), self.pst))
            P(st.ghost['shut'] == self.shut0, f'{kind}: shutdown state left alone')
        if kind == 'Registered':
            self.covered['Registered'] = True
            P(names == [], 'Registered: nothing done')
            error()
        elif kind == 'ProcStartRequest':
            P(names == ['start'], 'start: processes started once')
            if names != ['start']:
                return
            P(z3.And(x[1] == self.ptr, self.eq_specs(E, st, x[0])), 'start: exactly the specs given, into this set')
            if x[2]:
                self.covered['start'] = True
                P(reply is None, 'start: no reply to success')
            else:
                self.covered['start failed'] = True
                error()
        elif kind == 'ProcidListRequest':
            self.covered['list'] = True
            P(names == [], 'list: nothing done')
            P(reply == 'ProcidList', 'list: a list')
            if reply == 'ProcidList':
                listed(self, E, st, val(E, st, rf['proc_ids']), self.m0, 'list')
        elif kind == 'ProcResultRequest':
            P(names == [], 'result: nothing done')
            if E.decide(st, has):
                self.covered['result'] = True
                P(reply == 'ProcResult', 'result: a result for a known process')
                if reply == 'ProcResult':
                    P(val(E, st, rf['proc_id']) == self.id, 'result: of that process')
                    t = E.pack(st, rf['res'], RESULT)
                    P(t == z3.Function('result_of', E.sort(PROC), t.sort())(self.pt), 'result: the current one')
            else:
                self.covered['result unknown'] = True
                unknown()
        elif kind == 'ProcSignalRequest':
            if E.decide(st, has):
                P(names == ['signal'], 'signal: one is sent')
                if names != ['signal']:
                    return
                P(z3.And(x[0] == self.rptr, x[1] == self.f(E, kind, 'signum')), 'signal: exactly that signal to exactly that process')
                if x[2]:
                    self.covered['signal'] = True
                    P(reply is None, 'signal: no reply to success')
                else:
                    self.covered['signal failed'] = True
                    error()
            else:
                self.covered['signal unknown'] = True
                P(names == [], 'signal: none to an unknown process')
                unknown()
        elif kind == 'ProcFdDataRequest':
            name, start, stop = (self.f(E, kind, k) for k in ('fd', 'start', 'stop'))
            bad = z3.Or(z3.Not(OK(name)), start < 0, z3.And(is_some(stop), some_of(stop) < 0))
            ibad, ihas = E.decide(st, bad), E.decide(st, has)
            P(names in ([], ['data']), 'data: read once')
            if names:
                P(ihas, 'data: read from a known process only')
                P(z3.And(OK(name), x[0] == self.rptr, x[1] == NUM(name)), 'data: from exactly that fd of exactly that process')
                s = E.pack(st, x[3], opt_ty(USIZE)) if isinstance(x[3], Agg) else x[3].term
                P(z3.And(x[2] == start, start >= 0), 'data: from exactly that position')
                P(z3.And(is_some(s) == is_some(stop), z3.Implies(is_some(s), z3.And(some_of(s) == some_of(stop), some_of(stop) >= 0))), 'data: to exactly that position')
            if ibad or not ihas:
                if ibad and (not ihas) and reply == 'ProcUnknown' or not ibad:
                    self.covered['data unknown'] = True
                    unknown()
                else:
                    self.covered['data failed'] = True
                    error()
                P(names == [], 'data: nothing is read')
                return
            P(names == ['data'], 'data: is read')
            if not names:
                return
            _, _, ri, rfs = variant(E, st, ops[0][2])
            oi, od = 0, None
            if ri == 0:
                _, _, oi, od = variant(E, st, rfs[0])
            if ri == 1 or oi == 0:
                self.covered['data failed'] = True
                error()
                return
            self.covered['data'] = True
            P(reply == 'ProcFdData', 'data: a data reply')
            if reply != 'ProcFdData':
                return
            d = fields(E, st, od[0])
            got, sent = val(E, st, d['data']), val(E, st, rf['data'])
            P(z3.And(val(E, st, rf['proc_id']) == self.id, val(E, st, rf['fd']) == name), 'data: naming process and fd as asked')
            P(val(E, st, rf['start']) == start, 'data: where it starts')
            P(val(E, st, rf['stop']) == start + got.length(), 'data: where it ends')
            P(eqv(E, st, rf['encoding'], d['encoding']), 'data: its encoding')
            P(z3.And(sent.length() == got.length(), z3.Implies(z3.And(self.i1 >= 0, self.i1 < got.length()),
                                                               z3.Select(E.vec_arr(st, sent), self.i1) == z3.Select(E.vec_arr(st, got), self.i1))), 'data: exactly the bytes read')
        elif kind == 'ProcDeleteRequest':
            P(names == ['delete'], 'delete: one removal')
            if names != ['delete']:
                return
            P(z3.And(x[0] == self.ptr, x[1] == self.id), 'delete: of exactly that process')
            if x[2]:
                self.covered['delete'] = True
                P(reply is None, 'delete: no reply to success')
            elif E.decide(st, has):
                self.covered['delete failed'] = True
                error()
            else:
                self.covered['delete unknown'] = True
                unknown()
        else:
            raise Unsupported('request ' + kind)

    def eq_specs(self, E, st, m):
        t = self.f(E, 'ProcStartRequest', 'specs')
        return (m if isinstance(m, z3.ExprRef) else E.pack(st, m, self.M.info.variants[self.M.vi['ProcStartRequest']][2][0][1])) == t


CONTRACTS = [GetFdData, HandleIncoming]
