"""Captured output: what data and result requests return."""
from ..contract import *
from ..std import *
from .. import kernel
from .fd import FDH, SFH, H, HandlerBase

U8 = Ty('adt', 'u8')
FILE_ASSUMES = ['a regular file\'s bytes up to its length are fixed while it is being read (the process only appends)',
                'read_exact_at/read_at fill the buffer from the file at the given position without moving the offset, or fail']


class FileModel:
    """one open regular file: content C (position -> byte) and the length reported"""

    def file_setup(self, E, st, fd):
        self.C = z3.Const('content', z3.ArraySort(I, I))
        self.L = z3.Int('file_len')
        st.assume(z3.And(self.L >= 0, self.L <= INTS['i64'][1]))
        self.fileno = fd
        self.k = z3.Int('probe_k')
        self.probes = [self.k]

    def file_overrides(self, E):
        def from_raw(E, st, c):
            return PyV('file', fd=c.args[0])

        def fstat(E, st, c):
            if E.decide(st, E.fresh_const(B, 'fstat_fails')):
                errno_after(E, st)
                event(E, st, 'fstat', [c.args[0]], z3.IntVal(-1))
                return z3.IntVal(-1)
            havoc_out(1)(E, st, c, None)
            s = E.load_ref(st, c.args[1])
            st.assume(z3.Implies(c.args[0] == self.fileno, E.opaque_field(s, 8, I) == self.L))
            event(E, st, 'fstat', [c.args[0]], z3.IntVal(0))
            return z3.IntVal(0)

        def read_exact_at(E, st, c):
            f = val(E, st, c.args[0])
            ref, buf = target(E, st, c.args[1])
            off = c.args[2]
            n = buf.length()
            fails = E.fresh_const(B, 'read_fails')
            st.assume(z3.Implies(z3.And(off + n > self.L, n > 0), fails))
            if E.decide(st, fails):
                event(E, st, 'read_at', [f.a['fd'], off, n], z3.IntVal(-1))
                return Agg(c.dty, [E.fresh(st, IOERR, 'rderr')], 1)
            event(E, st, 'read_at', [f.a['fd'], off, n], z3.IntVal(0))
            i = z3.Int('rd_i')
            E.prove(st, f.a['fd'] == self.fileno, 'reads the captured file')
            arr = z3.Lambda([i], z3.Select(self.C, off + i))
            E.store_addr(st, ref.root, ref.path, VecV(U8, n=n, arr=arr))
            return Agg(c.dty, [unit()], 0)
        d = dict(kernel.OVERRIDES)
        d.update({'FromRawFd::from_raw_fd': from_raw, 'libc::fstat': fstat, 'FileExt::read_exact_at': read_exact_at})
        return d

    def undisturbed(self, E, st):
        bad = [e for e in st.trace if e[0] not in ('fstat', 'read_at')]
        E.prove(st, z3.BoolVal(not bad), 'only looks: the descriptor is not closed and its position not moved')

    def failed(self, st):
        return any(e[0] in ('fstat', 'read_at') and as_int(e[2]) == -1 for e in st.trace)

    def is_range(self, E, st, data, start, stop_opt, C, L, what):
        """data is content[start .. min(stop, L)]"""
        n = self.range_len(E, st, start, stop_opt, L)
        E.prove(st, data.length() == n, f'{what}: exactly the bytes asked for and there')
        E.prove(st, z3.Implies(z3.And(self.k >= 0, self.k < n), z3.Select(E.vec_arr(st, data), self.k) == z3.Select(C, start + self.k)),
                f'{what}: the bytes written, in order')

    def range_len(self, E, st, start, stop_opt, L):
        end = L
        if stop_opt is not None:
            s = E.sort(stop_opt.ty)
            t = E.pack(st, stop_opt, stop_opt.ty)
            end = z3.If(s.recognizer(1)(t), z3.If(s.accessor(1, 0)(t) < L, s.accessor(1, 0)(t), L), L)
        return z3.If(end > start, end - start, z3.IntVal(0))


class ReadFromFile(FileModel, Contract):
    """read_from_file: the bytes from start to the smaller of stop and the end; nothing is closed or moved; an error only if a call failed"""
    target = 'sys::read_from_file'
    assumes = FILE_ASSUMES
    covers = ('data', 'error')

    def overrides(self, E):
        return self.file_overrides(E)

    def setup(self, E, st, f):
        kernel.install(st)
        self.fd, self.start = z3.Int('fd'), z3.Int('start')
        self.file_setup(E, st, self.fd)
        st.assume(z3.And(E.in_range(self.fd, 'i32'), E.in_range(self.start, 'u64')))
        t = f.locals[f.args[2]]
        self.stop = E.fresh(st, t, 'stop')
        st.assume(z3.Implies(E.sort(t).recognizer(1)(self.stop.term), E.in_range(E.sort(t).accessor(1, 0)(self.stop.term), 'u64')))
        return [self.fd, self.start, self.stop]

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        self.undisturbed(E, st)
        if vi == 0:
            self.covered['data'] = True
            self.is_range(E, st, val(E, st, fs[0]), self.start, self.stop, self.C, self.L, 'file')
        else:
            self.covered['error'] = True
            E.prove(st, z3.BoolVal(self.failed(st)), 'an error only if a call failed')


class CaptureBase(FileModel, HandlerBase):
    assumes = FILE_ASSUMES + ['fd handler invariant: private descriptors of a handler are open']

    def overrides(self, E):
        return self.file_overrides(E)

    def setup(self, E, st, f):
        a = super().setup(E, st, f)
        self.file_setup(E, st, self.h.f('UnlinkedFile', 'file_fd'))
        b = E.unpack(st, self.h.f('CaptureMemory', 'buf'), Ty('adt', 'Vec', [U8]))
        self.buf = b
        st.assume(z3.And(b.n >= 0, b.n <= INTS['i64'][1]))
        self.self_ref = E.ref_to(st, Agg(SFH, [RcV(FDH, self.ptr)]), SFH)
        return [self.self_ref]

    def unchanged(self, E, st):
        v = E.load_ref(st, RefV(('h', FDH, self.ptr)))
        E.prove(st, E.pack(st, v, FDH) == self.h.t, 'the capture itself is unchanged')

    def opt(self, E, st, v):
        _, _, vi, fs = variant(E, st, v)
        return fs[0] if vi == 1 else None


class GetData(CaptureBase):
    """get_data: exactly the requested range of what was captured, with its encoding; nothing for descriptors that are not captured"""
    target = 'fd::SharedFdHandler::get_data'
    covers = ('UnlinkedFile', 'CaptureMemory', 'none', 'error')

    def setup(self, E, st, f):
        a = super().setup(E, st, f)
        self.start = z3.Int('start')
        st.assume(E.in_range(self.start, 'usize'))
        t = f.locals[f.args[2]]
        self.stop = E.fresh(st, t, 'stop')
        st.assume(z3.Implies(E.sort(t).recognizer(1)(self.stop.term), E.in_range(E.sort(t).accessor(1, 0)(self.stop.term), 'usize')))
        return a + [self.start, self.stop]

    def post(self, E, st, ret):
        h = self.h
        _, _, vi, fs = variant(E, st, ret)
        self.undisturbed(E, st)
        self.unchanged(E, st)
        if vi == 1:
            self.covered['error'] = True
            E.prove(st, z3.And(h.is_('UnlinkedFile'), z3.BoolVal(self.failed(st))), 'an error only if a call failed')
            return
        r = self.opt(E, st, fs[0])
        if r is None:
            self.covered['none'] = True
            E.prove(st, z3.Not(z3.Or(h.is_('UnlinkedFile'), h.is_('CaptureMemory'))), 'captured data is always returned')
            return
        E.prove(st, z3.Or(h.is_('UnlinkedFile'), h.is_('CaptureMemory')), 'only captured data is returned')
        d = fields(E, st, r)
        for var, C, L in (('UnlinkedFile', self.C, self.L), ('CaptureMemory', self.buf.arr, self.buf.n)):
            if not E.feasible(st, h.is_(var)):
                continue
            self.covered[var] = True
            n = self.range_len(E, st, self.start, self.stop, L)
            data = val(E, st, d['data'])
            E.prove(st, z3.Implies(h.is_(var), data.length() == n), f'{var}: exactly the bytes asked for and there')
            E.prove(st, z3.Implies(z3.And(h.is_(var), self.k >= 0, self.k < n), z3.Select(E.vec_arr(st, data), self.k) == z3.Select(C, self.start + self.k)),
                    f'{var}: the bytes written, in order')
            E.prove(st, z3.Implies(h.is_(var), E.pack(st, d['encoding'], h.ftype(var, 'encoding')) == h.f(var, 'encoding')), f'{var}: encoding of the capture')


class GetResult(CaptureBase):
    """get_result: attached captures carry all bytes in the text or base64 form the encoding says; detached ones the exact length; others nothing"""
    target = 'fd::SharedFdHandler::get_result'
    covers = ('attached text', 'attached data', 'detached', 'none', 'error')
    assumes = CaptureBase.assumes + ['String::from_utf8_lossy and base64 encode what they are given']

    def overrides(self, E):
        d = self.file_overrides(E)

        def b64(E, st, c):
            v = val(E, st, c.args[1])
            t = z3.Function('base64', I, S)
            self.b64 = E.fresh_const(S, 'b64')
            st.ghost['encoded'] = ('base64', v, self.b64, c.args[0])
            return self.b64

        def lossy(E, st, c):
            v = val(E, st, c.args[0])
            r = E.fresh_const(S, 'lossy')
            st.ghost['encoded'] = ('utf-8', v, r, None)
            return Agg(Ty('adt', 'Cow', [STR]), [E.str_ref(st, r)], 0)
        for k in ('Engine::encode', 'base64::Engine::encode'):
            d[k] = b64
        d['String::from_utf8_lossy'] = lossy
        return d

    def post(self, E, st, ret):
        h = self.h
        _, _, vi, fs = variant(E, st, ret)
        self.undisturbed(E, st)
        self.unchanged(E, st)
        cap = z3.Or(h.is_('UnlinkedFile'), h.is_('CaptureMemory'))
        if vi == 1:
            self.covered['error'] = True
            E.prove(st, z3.And(h.is_('UnlinkedFile'), z3.BoolVal(self.failed(st))), 'an error only if a call failed')
            return
        r = self.opt(E, st, fs[0])
        if r is None:
            self.covered['none'] = True
            E.prove(st, z3.Not(cap), 'a captured descriptor always has a result')
            return
        E.prove(st, cap, 'only a captured descriptor has a result')
        kind, f = case(E, st, r)
        for var, C, L in (('UnlinkedFile', self.C, self.L), ('CaptureMemory', self.buf.arr, self.buf.n)):
            c = h.is_(var)
            if not E.feasible(st, c):
                continue
            att = h.f(var, 'attached')
            enc = h.f(var, 'encoding')
            es = enc.sort()
            text = es.recognizer(1)(enc)
            E.prove(st, z3.Implies(c, z3.BoolVal(kind == 'Detached') == z3.Not(att)), f'{var}: contents exactly if attached')
            encname = z3.If(text, z3.StringVal('utf-8'), z3.StringVal('base64'))
            E.prove(st, z3.Implies(c, val(E, st, f['encoding']) == encname) if 'encoding' in f else z3.Not(c), f'{var}: encoding named')
            if kind == 'Detached':
                self.covered['detached'] = True
                E.prove(st, z3.Implies(c, f['length'] == L), f'{var}: exact length')
                continue
            E.prove(st, z3.Implies(c, z3.BoolVal(kind == 'Text') == text), f'{var}: text exactly if the encoding is UTF-8')
            g = st.ghost.get('encoded')
            E.prove(st, z3.BoolVal(g is not None), f'{var}: encoded')
            if g is None:
                continue
            self.covered['attached text' if kind == 'Text' else 'attached data'] = True
            E.prove(st, z3.Implies(c, z3.BoolVal(g[0] == ('utf-8' if kind == 'Text' else 'base64'))), f'{var}: encoded as named')
            if g[3] is not None:
                E.prove(st, z3.BoolVal('STANDARD' in str(getattr(val(E, st, g[3]), 'text', '')) + str(g[3]) and 'URL' not in str(getattr(val(E, st, g[3]), 'text', ''))),
                        f'{var}: standard base64')
            x = f.get('text', f.get('data'))
            E.prove(st, z3.Implies(c, val(E, st, x) == g[2]) if x is not None else z3.Not(c), f'{var}: the encoded text is the result')
            v = g[1]
            E.prove(st, z3.Implies(c, v.length() == L), f'{var}: all bytes')
            E.prove(st, z3.Implies(z3.And(c, self.k >= 0, self.k < L), z3.Select(E.vec_arr(st, v), self.k) == z3.Select(C, self.k)), f'{var}: the bytes written, in order')


class DrainTask(Contract):
    """run_capture_memory: at every pause and at the end, the buffer is exactly what was read from the pipe so far; it ends at end of file"""
    target = 'fd::SharedFdHandler::run_capture_memory'
    covers = ('eof', 'error')
    assumes = ['an awaited pipe read delivers the next bytes of the stream, at most as many as the buffer holds, and none only at end of file',
               'no other task writes the buffer of a memory capture (the drain task is started once, by in_parent)']

    def setup(self, E, st, f):
        p = z3.Int('handler_ptr')
        st.assume(p >= 0)
        self.ptr = p
        v = E.load_ref(st, RefV(('h', FDH, p)))
        self.h = h = H(E, v)
        st.assume(h.is_('CaptureMemory'))
        b = E.unpack(st, h.f('CaptureMemory', 'buf'), Ty('adt', 'Vec', [U8]))
        st.assume(b.n == 0)
        self.S = z3.Const('stream', z3.ArraySort(I, I))
        st.ghost['pos'] = z3.IntVal(0)
        st.ghost['eof'] = z3.BoolVal(False)
        self.k = z3.Int('probe_k')
        self.probes = [self.k]
        return [RcV(FDH, p)]

    def buf(self, E, st):
        v = E.load_ref(st, RefV(('h', FDH, self.ptr)))
        t = E.pack(st, v, FDH)
        h = H(E, Sym(FDH, t))
        return h, E.unpack(st, simp(h.f('CaptureMemory', 'buf')), Ty('adt', 'Vec', [U8]))

    def inv(self, E, st):
        h, b = self.buf(E, st)
        pos = st.ghost['pos']
        same = [h.f('CaptureMemory', n) == self.h.f('CaptureMemory', n) for n in ('fd', 'read_fd', 'write_fd', 'encoding', 'attached')]
        return [('the capture buffer holds as many bytes as were read', z3.And(h.is_('CaptureMemory'), b.n == pos)),
                ('the capture buffer holds the bytes read, in order', z3.Implies(z3.And(self.k >= 0, self.k < pos), z3.Select(b.arr, self.k) == z3.Select(self.S, self.k))),
                ('nothing else of the capture changes', z3.And(h.is_('CaptureMemory'), *same))]

    def loop_inv(self, L):
        out = {}
        for i in range(3):
            def fn(st, i=i):
                return self.inv(L.E, st)[i][1]
            out[f'drain {i}'] = fn
        out['pos'] = lambda st: st.ghost['pos'] >= 0
        out['eof'] = lambda st: z3.Not(st.ghost['eof'])
        return out

    def on_await(self, E, st, fut, rty):
        if fut.a['name'] != 'pipe_read':
            raise Unsupported('await of ' + fut.a['name'])
        for n, c in self.inv(E, st):
            E.prove(st, c, n)
        src = val(E, st, fut.a['args'][0])
        E.prove(st, z3.BoolVal(isinstance(src, PyV) and src.kind == 'file') and src.a['fd'] == self.h.f('CaptureMemory', 'read_fd'), 'reads the pipe of the capture')
        if E.decide(st, E.fresh_const(B, 'read_fails')):
            st.ghost['failed'] = True
            return Agg(rty, [E.fresh(st, IOERR, 'rderr')], 1)
        ref, buf = target(E, st, fut.a['args'][1])
        n = E.fresh_const(I, 'nread')
        st.assume(z3.And(n >= 0, n <= buf.length()))
        pos = st.ghost['pos']
        i = z3.Int('rd_i')
        old = E.vec_arr(st, buf)
        st.ghost['pos'] = simp(pos + n)
        st.ghost['eof'] = n == 0
        E.store_addr(st, ref.root, ref.path, VecV(U8, n=buf.length(), arr=z3.Lambda([i], z3.If(i < n, z3.Select(self.S, pos + i), z3.Select(old, i)))))
        return Agg(rty, [n], 0)

    def overrides(self, E):
        def from_raw(E, st, c):
            if E.decide(st, E.fresh_const(B, 'checked_fails')):
                st.ghost['failed'] = True
                return Agg(c.dty, [E.fresh(st, IOERR, 'pipeerr')], 1)
            return Agg(c.dty, [PyV('file', fd=c.args[0])], 0)
        return {'PipeRead::from_raw_fd_checked': from_raw}

    def post(self, E, st, ret):
        _, _, vi, fs = variant(E, st, ret)
        for n, c in self.inv(E, st):
            E.prove(st, c, n)
        if vi == 0:
            self.covered['eof'] = True
            E.prove(st, st.ghost['eof'], 'ends only at end of file')
        else:
            self.covered['error'] = True
            E.prove(st, z3.BoolVal(bool(st.ghost.get('failed'))), 'an error only if a read failed')


CONTRACTS = [ReadFromFile, GetData, GetResult, DrainTask]
