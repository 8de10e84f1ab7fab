"""Errors of the child before exec: written by the child, read by the parent."""
from ..contract import *
from ..std import *
from .. import kernel

U8 = Ty('adt', 'u8')
WRITER = Ty('adt', 'err_pipe::ErrorWriter')
PIPE = Ty('adt', 'err_pipe::ErrorPipe')
WRITE_ASSUMES = ['write(2) appends a nonempty prefix of what it is given to the pipe, or fails (blocking pipe)']


class Stream:
    """ghost: what was written so far, OUT[0 .. out_n)"""

    def stream_setup(self, E, st):
        st.ghost['OUT'] = z3.Const('out', z3.ArraySort(I, I))
        st.ghost['out_n'] = z3.Int('out_n')
        st.assume(z3.And(st.ghost['out_n'] >= 0, st.ghost['out_n'] <= 2 ** 40))
        self.out0, self.n0 = st.ghost['OUT'], st.ghost['out_n']
        self.q = z3.Int('probe_q')
        st.assume(self.q >= 0)
        st.ghost['failed'] = z3.BoolVal(False)
        self.probes = [self.q]

    def append(self, E, st, arr, n):
        i = z3.Int('ap_i')
        old, p = st.ghost['OUT'], st.ghost['out_n']
        st.ghost['OUT'] = z3.Lambda([i], z3.If(z3.And(i >= p, i < p + n), z3.Select(arr, i - p), z3.Select(old, i)))
        st.ghost['out_n'] = simp(p + n)


class FdioWrite(Stream, Contract):
    """fdio::write: all the bytes, in order, however few the system takes at once; an error only if a write failed or took none"""
    target = 'fdio::write'
    assumes = WRITE_ASSUMES
    covers = ('written', 'error')

    def overrides(self, E):
        def write(E, st, c):
            E.prove(st, c.args[0] == self.fd, 'to the given descriptor')
            v = val(E, st, c.args[1])
            n = c.args[2]
            E.prove(st, z3.And(n >= 0, n <= v.length()), 'within the data')
            if E.decide(st, E.fresh_const(B, 'write_fails')):
                st.ghost['failed'] = z3.BoolVal(True)
                errno_after(E, st)
                return z3.IntVal(-1)
            k = E.fresh_const(I, 'written')
            st.assume(z3.And(k >= 0, k <= n))
            st.ghost['failed'] = simp(z3.Or(st.ghost['failed'], z3.And(n > 0, k == 0)))
            self.append(E, st, E.vec_arr(st, v), k)
            return k
        return {'libc::write': write}

    def setup(self, E, st, f):
        self.stream_setup(E, st)
        self.fd = z3.Int('fd')
        self.data = VecV(U8, n=z3.Int('data_n'), arr=z3.Const('data', z3.ArraySort(I, I)))
        st.assume(z3.And(self.data.n >= 0, self.data.n <= 2 ** 32))
        return [self.fd, E.ref_to(st, self.data, f.locals[f.args[1]].args[0])]

    def sofar(self, st):
        """what was appended is the beginning of the data"""
        g = st.ghost
        m = g['out_n'] - self.n0
        return [z3.And(m >= 0, m <= self.data.n),
                z3.Implies(z3.And(self.q >= self.n0, self.q < g['out_n']), z3.Select(g['OUT'], self.q) == z3.Select(self.data.arr, self.q - self.n0)),
                z3.Implies(self.q < self.n0, z3.Select(g['OUT'], self.q) == z3.Select(self.out0, self.q))]

    def loop_inv(self, L):
        out = {}
        for i in range(3):
            out[f'so far {i}'] = lambda st, i=i: self.sofar(st)[i]
        out['nothing failed'] = lambda st: z3.Not(st.ghost['failed'])
        E = L.E
        for k in L.values((RefV,)):
            def rest(st, k=k):
                v = E.load_ref(st, L.get(st, k))
                i = z3.Int('rest_i')
                m = st.ghost['out_n'] - self.n0
                return z3.And(v.length() == self.data.n - m,
                              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.length()), z3.Select(E.vec_arr(st, v), i) == z3.Select(self.data.arr, i + m))))
            out[f'rest {k[1]}'] = rest
        for k in L.values((z3.ExprRef,), lambda v: z3.is_int(v)):
            out[f'count {k[1]}'] = lambda st, k=k: L.get(st, k) == st.ghost['out_n'] - self.n0
            out[f'left {k[1]}'] = lambda st, k=k: L.get(st, k) == self.data.n - st.ghost['out_n'] + self.n0
        return out

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        for i, c in enumerate(self.sofar(st)):
            E.prove(st, c, ['no more than the data', 'the data in order', 'earlier output is kept'][i])
        if vi == 0:
            self.covered['written'] = True
            E.prove(st, st.ghost['out_n'] == self.n0 + self.data.n, 'all of the data')
        else:
            self.covered['error'] = True
            E.prove(st, st.ghost['failed'], 'an error only if a write failed or took nothing')


def fdio_write(self, E, st, c):
    """contract of fdio::write"""
    E.prove(st, c.args[0] == self.fd, 'to the given descriptor')
    v = val(E, st, c.args[1])
    if E.decide(st, E.fresh_const(B, 'fdio_write_fails')):
        st.ghost['failed'] = z3.BoolVal(True)
        k = E.fresh_const(I, 'written')
        st.assume(z3.And(k >= 0, k <= v.length()))
        self.append(E, st, E.vec_arr(st, v), k)
        return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'werr')], 1)
    self.append(E, st, E.vec_arr(st, v), v.length())
    return Agg(c.dty, [unit()], 0)


class WriterWrite(Stream, Contract):
    """ErrorWriter::write: two bytes of length, least significant first, then the text, cut off at 65535 bytes"""
    target = 'err_pipe::ErrorWriter::write'
    covers = ('written', 'error', 'long')
    assumes = ['fdio::write as under its own contract']

    def overrides(self, E):
        return {'fdio::write': lambda E, st, c: fdio_write(self, E, st, c)}

    def setup(self, E, st, f):
        self.stream_setup(E, st)
        self.fd = z3.Int('fd')
        self.text = z3.String('text')
        return [E.ref_to(st, Agg(WRITER, [self.fd]), WRITER), self.text]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        g = st.ghost
        b = str_bytes(E, st, self.text)
        n = z3.If(b.n < 65535, b.n, z3.IntVal(65535))
        if vi == 1:
            self.covered['error'] = True
            E.prove(st, g['failed'], 'an error only if a write failed')
            return
        self.covered['written'] = True
        self.covered['long'] |= E.feasible(st, b.n > 65535)
        E.prove(st, z3.Not(g['failed']), 'no failed write is taken for success')
        E.prove(st, g['out_n'] == self.n0 + 2 + n, 'length of the message')
        E.prove(st, z3.Select(g['OUT'], self.n0) == n % 256, 'low byte of the length')
        E.prove(st, z3.Select(g['OUT'], self.n0 + 1) == n / 256, 'high byte of the length')
        i = self.q
        E.prove(st, z3.Implies(z3.And(i >= 0, i < n), z3.Select(g['OUT'], self.n0 + 2 + i) == z3.Select(b.arr, i)), 'the text')
        E.prove(st, z3.Implies(z3.And(i >= 0, i < self.n0), z3.Select(g['OUT'], i) == z3.Select(self.out0, i)), 'earlier messages are kept')


class TryWrite(WriterWrite):
    """ErrorWriter::try_write: the same, whatever happens it returns"""
    target = 'err_pipe::ErrorWriter::try_write'
    covers = ('written',)

    def post(self, E, st, ret):
        if E.decide(st, st.ghost['failed']):
            return
        self.covered['error'] = self.covered['long'] = False
        super().post(E, st, Agg(Ty('adt', 'Result', [UNIT, IOERR]), [unit()], 0))
        del self.covered['error'], self.covered['long']


class GetErrors(Contract):
    """get_errors: every message in order with its text, one more error if a message is cut short or cannot be read, and no read after the end"""
    target = 'err_pipe::ErrorPipe::get_errors'
    covers = ('end', 'damaged')
    assumes = ['read_u16_le and read_exact deliver the next bytes of the stream or fail; end of file at the length means the other end is done',
               'String::from_utf8_lossy gives the text of the bytes']

    def overrides(self, E):
        def lossy(E, st, c):
            v = val(E, st, c.args[0])
            r = self.text_of(E.vec_arr(st, v), v.length())
            return Agg(Ty('adt', 'Cow', [STR]), [E.str_ref(st, r)], 0)
        d = {'String::from_utf8_lossy': lossy}
        return d

    def text_of(self, arr, n):
        return z3.Function('lossy_text', z3.ArraySort(I, I), I, S)(arr, n)

    def setup(self, E, st, f):
        g = st.ghost
        self.k = z3.Int('probe_k')
        st.assume(self.k >= 0)
        self.probes = [self.k]
        g['n'] = z3.IntVal(0)                                  # messages received
        g['msg'] = z3.Const('msgs', z3.ArraySort(I, S))        # their texts
        g['want'] = z3.IntVal(-1)                              # length announced, message not read yet
        g['end'] = z3.BoolVal(False)
        g['damaged'] = z3.BoolVal(False)
        return [PyV('file', fd=z3.Int('read_fd'))]

    def errors(self, E, L, st, k):
        return L.get(st, k)

    def good(self, E, st, v):
        g = st.ghost
        return [v.length() == g['n'], z3.Implies(z3.And(self.k >= 0, self.k < g['n']), z3.Select(E.vec_arr(st, v), self.k) == z3.Select(g['msg'], self.k))]

    def loop_inv(self, L):
        out = {}
        for k in L.values((VecV,), lambda v: v.ety is not None and (v.ety == STRING or str(v.ety) == str(STRING))):
            for i in range(2):
                out[f'errors {k[1]} {i}'] = lambda st, k=k, i=i: self.good(L.E, st, L.get(st, k))[i]
        out['n'] = lambda st: st.ghost['n'] >= 0
        out['going on'] = lambda st: z3.And(z3.Not(st.ghost['end']), z3.Not(st.ghost['damaged']), st.ghost['want'] == -1)
        return out

    def on_await(self, E, st, fut, rty):
        g, n = st.ghost, fut.a['name']
        E.prove(st, z3.Not(z3.Or(g['end'], g['damaged'])), 'nothing is read after the end')

        if n == 'pipe_read_u16_le':
            E.prove(st, g['want'] == -1, 'each announced message is read before the next')
            if E.decide(st, E.fresh_const(B, 'len_ok')):
                ln = E.fresh_const(I, 'len')
                st.assume(z3.And(ln >= 0, ln <= 65535))
                g['want'] = ln
                return Agg(rty, [ln], 0)
            e = E.fresh(st, rty.args[1], 'lenerr')
            eof = self.is_eof(E, st, e)
            g['end'] = simp(eof)
            g['damaged'] = simp(z3.Not(eof))
            return Agg(rty, [e], 1)
        if n == 'pipe_read_exact':
            ref, buf = target(E, st, fut.a['args'][1])
            E.prove(st, buf.length() == g['want'], 'as many bytes are read as the message has')
            if E.decide(st, E.fresh_const(B, 'msg_ok')):
                arr = E.fresh_const(z3.ArraySort(I, I), 'msgbytes')
                E.store_addr(st, ref.root, ref.path, VecV(U8, n=buf.length(), arr=arr))
                g['msg'] = z3.Store(g['msg'], g['n'], self.text_of(arr, g['want']))
                g['n'] = simp(g['n'] + 1)
                g['want'] = z3.IntVal(-1)
                return Agg(rty, [buf.length()], 0)
            g['damaged'] = z3.BoolVal(True)
            return Agg(rty, [E.fresh(st, rty.args[1], 'msgerr')], 1)
        raise Unsupported('await of ' + n)

    def is_eof(self, E, st, e):
        return kind_of(E, E.pack(st, e, IOERR)) == errkind(E, 'UnexpectedEof')

    def post(self, E, st, ret):
        g = st.ghost
        v = val(E, st, ret)
        E.prove(st, z3.Or(g['end'], g['damaged']), 'reads up to the end')
        d = z3.If(g['damaged'], z3.IntVal(1), z3.IntVal(0))
        E.prove(st, v.length() == g['n'] + d, 'one error per message, and one more for a damaged one')
        E.prove(st, z3.Implies(self.k < g['n'], z3.Select(E.vec_arr(st, v), self.k) == z3.Select(g['msg'], self.k)), 'the messages in order, with their text')
        for k in ('end', 'damaged'):
            self.covered[k] |= E.feasible(st, g[k])


class PipeNew(Contract):
    """ErrorPipe::new: both ends of a new pipe, both closed on exec; an error only if a call failed"""
    target = 'err_pipe::ErrorPipe::new'
    covers = ('ok', 'error')
    assumes = kernel.ASSUMES

    def overrides(self, E):
        return dict(kernel.OVERRIDES)

    def setup(self, E, st, f):
        kernel.install(st)
        self.T0 = st.ghost['fdt']
        self.q = z3.Int('q')
        return []

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        if vi == 1:
            self.covered['error'] = True
            E.prove(st, z3.Or([z3.BoolVal(False)] + [e[2] == -1 for e in st.trace if e[0] in ('pipe', 'fcntl')]), 'an error only if a call failed')
            return
        self.covered['ok'] = True
        p = fields(E, st, fs[0])
        ps = st.ghost.get('pipes', ())
        E.prove(st, z3.BoolVal(len(ps) == 1), 'one pipe')
        if len(ps) != 1:
            return
        r, dr, w, dw = ps[0]
        E.prove(st, p['read_fd'] == r, 'its read end')
        E.prove(st, p['write_fd'] == w, 'its write end')
        for n, fd in (('read', r), ('write', w)):
            sets = [z3.And(e[1][0] == fd, e[1][1] == 2, e[1][2] % 2 == 1, e[2] != -1) for e in st.trace if e[0] == 'fcntl' and len(e[1]) == 3]
            sets += [z3.And(e[1][0] == fd, e[1][1] == 1, e[2] >= 0, e[2] % 2 == 1) for e in st.trace if e[0] == 'fcntl']      # already
            E.prove(st, z3.Or([z3.BoolVal(False)] + sets), f'{n} end is closed on exec')
        T = st.ghost['fdt']
        E.prove(st, z3.Implies(z3.And(self.q != r, self.q != w), z3.Select(T, self.q) == z3.Select(self.T0, self.q)), 'no other descriptor is touched')
        E.prove(st, z3.And(z3.Select(T, r) == dr, z3.Select(T, w) == dw), 'both are open')


class PipeEnd(Contract):
    covers = ('ok',)
    assumes = kernel.ASSUMES + ['both ends of the error pipe are open (nobody else closes them)']

    def overrides(self, E):
        return dict(kernel.OVERRIDES)

    def setup(self, E, st, f):
        kernel.install(st)
        self.T0 = st.ghost['fdt']
        self.q = z3.Int('q')
        self.r, self.w = z3.Ints('read_fd write_fd')
        st.assume(z3.And(self.r != self.w, self.r >= 0, self.w >= 0, z3.Select(self.T0, self.r) > 0, z3.Select(self.T0, self.w) > 0))
        names = [n for n, _ in E.db.info(PIPE).fields]
        return [Agg(PIPE, [{'read_fd': self.r, 'write_fd': self.w}[n] for n in names])]

    def only_closed(self, E, st, fd):
        T = st.ghost['fdt']
        E.prove(st, z3.Select(T, fd) == 0, 'the end of the other side is closed')
        E.prove(st, z3.Implies(self.q != fd, z3.Select(T, self.q) == z3.Select(self.T0, self.q)), 'no other descriptor is touched')


class PipeInChild(PipeEnd):
    """ErrorPipe::in_child: the writer keeps the write end; the read end and nothing else is closed"""
    target = 'err_pipe::ErrorPipe::in_child'

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        E.prove(st, z3.BoolVal(vi == 0), 'cannot fail')
        if vi == 0:
            self.covered['ok'] = True
            E.prove(st, fields(E, st, fs[0])['write_fd'] == self.w, 'writes to the pipe')
        self.only_closed(E, st, self.r)


class PipeInParent(PipeEnd):
    """ErrorPipe::in_parent: the write end and nothing else is closed, before the errors are read from the read end until its end"""
    target = 'err_pipe::ErrorPipe::in_parent'
    assumes = PipeEnd.assumes + ['the pipe can be registered with the event loop (else the agent stops)', 'get_errors as under its own contract']

    def overrides(self, E):
        d = dict(kernel.OVERRIDES)
        d['PipeRead::from_raw_fd_checked'] = lambda E, st, c: Agg(c.dty, [PyV('file', fd=c.args[0])], 0)
        d['ErrorPipe::get_errors'] = lambda E, st, c: PyV('future', name='get_errors', args=tuple(c.args), dty=c.dty)
        return d

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'get_errors':
            raise Unsupported('await of ' + fut.a['name'])
        self.only_closed(E, st, self.w)
        src = val(E, st, fut.a['args'][0])
        E.prove(st, src.a['fd'] == self.r if isinstance(src, PyV) and src.kind == 'file' else z3.BoolVal(False), 'reads the read end')
        E.prove(st, z3.BoolVal('got' not in st.ghost), 'reads once')
        v = E.fresh(st, rty, 'errors')
        st.ghost['got'] = v
        return v

    def post(self, E, st, ret):
        self.covered['ok'] = True
        E.prove(st, z3.BoolVal('got' in st.ghost), 'reads the errors')
        if 'got' in st.ghost:
            E.prove(st, eqv(E, st, val(E, st, ret), st.ghost['got']), 'returns the errors read')


CONTRACTS = [FdioWrite, WriterWrite, TryWrite, GetErrors, PipeNew, PipeInChild, PipeInParent]
