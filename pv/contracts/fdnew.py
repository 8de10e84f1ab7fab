"""Making the handlers of file descriptors: what exists before the fork."""
from ..contract import *
from ..std import *
from .. import kernel
from .fd import FDH, SFH
from .names import oflags, parse_ok, NAMES, MODES

PID = STRING


def fd_of(s):
    """the descriptor a valid name means"""
    r = parse_ok(s)[1]
    for n, k in NAMES.items():
        r = z3.If(s == z3.StringVal(n), z3.IntVal(k), r)
    return r


def fd_ok(s):
    return z3.Or(parse_ok(s)[0], *[s == z3.StringVal(n) for n in NAMES])


class MakeHandler(Contract):
    """make_fd_handler: for every spec the handler stands for exactly the object the spec names; descriptors it needs are made new,
    the two ends of a pipe between processes come out of the same pipe whichever end is asked for first, and no other pipe is touched"""
    target = 'fd::make_fd_handler'
    assumes = kernel.ASSUMES + ['fd names given to make_fd_handler are valid (checked by validate_procs_fds before)',
                                'each end of a pipe between processes is asked for at most once (checked by validate_procs_fds before)']
    covers = ('Inherit', 'Close', 'Null', 'File', 'Dup', 'TempFile', 'Memory', 'PipeWrite first', 'PipeWrite second', 'PipeRead first', 'PipeRead second', 'Error')

    def overrides(self, E):
        d = dict(kernel.OVERRIDES)

        def rm(E, st, c):
            event(E, st, 'remove_file', [val(E, st, c.args[0])], None)
            if E.decide(st, E.fresh_const(B, 'remove_fails')):
                return Agg(c.dty, [E.fresh(st, IOERR, 'rmerr')], 1)
            return Agg(c.dty, [unit()], 0)
        d['fs::remove_file'] = rm
        return d

    def setup(self, E, st, f):
        kernel.install(st)
        self.T0 = st.ghost['fdt']
        self.q = z3.Int('q')
        st.assume(z3.Select(self.T0, self.q) >= 0)
        tys = [f.locals[a] for a in f.args]
        self.pid = z3.String('proc_id')
        self.name = z3.String('fd_name')
        st.assume(fd_ok(self.name))
        self.fd = fd_of(self.name)
        st.assume(z3.And(E.in_range(self.fd, 'i32')))
        self.sty = tys[2]
        self.spec = E.fresh(st, tys[2], 'spec')
        pty = tys[3].args[0]
        self.pty = pty
        self.pipes = E.fresh(st, pty, 'pipes')
        fs = fields(E, st, self.pipes)
        self.map0 = list(fs.values())[0]
        # the key this spec is about, if it is a pipe
        ks = self.map0.has.sort().domain()
        self.ks, self.vs = ks, self.map0.val.sort().range()
        i, s = E.db.info(self.sty), E.sort(self.sty)
        vi = {v[0]: k for k, v in enumerate(i.variants)}
        self.s, self.vi, self.info = s, vi, i
        t = self.spec.term
        fi = [n for n, _ in i.variants[vi['PipeRead']][2]]
        self.from_id, self.from_fd = [s.accessor(vi['PipeRead'], fi.index(n))(t) for n in ('proc_id', 'fd')]
        mk = ks.constructor(0)
        self.key = z3.If(s.recognizer(vi['PipeRead'])(t), mk(self.from_id, fd_of(self.from_fd)), mk(self.pid, self.fd))
        self.other = z3.Const('other_key', ks)
        map_wf_at(E, st, self.map0, self.key)
        map_wf_at(E, st, self.map0, self.other)
        self.optty = dict(E.db.info(dict_val_ty(self.map0)).fields)
        # the end asked for is still there
        self.r0, self.w0 = self.ends(E, self.map0, self.key)
        os = self.r0.sort()
        self.os = os
        some, get = os.recognizer(1), os.accessor(1, 0)
        st.assume(z3.Implies(z3.And(z3.Select(self.map0.has, self.key), s.recognizer(vi['PipeRead'])(t)), some(self.r0)))
        st.assume(z3.Implies(z3.And(z3.Select(self.map0.has, self.key), s.recognizer(vi['PipeWrite'])(t)), some(self.w0)))
        for e in (self.r0, self.w0):
            st.assume(z3.Implies(some(e), z3.And(get(e) >= 0, z3.Select(self.T0, get(e)) > 0)))
        self.pref = E.ref_to(st, self.pipes, pty, True)
        return [E.ref_to(st, self.pid, STRING), self.name, self.spec, self.pref]

    def ends(self, E, m, k):
        v = z3.Select(m.val, k)
        names = [n for n, _ in E.db.info(dict_val_ty(m)).fields]
        return [v.sort().accessor(0, names.index(n))(v) for n in ('read', 'write')]

    def post(self, E, st, ret):
        t0 = fields(E, st, ret)
        E.prove(st, t0[0] == self.fd, 'the descriptor is the one named')
        h = rc_value(E, st, t0[1], FDH)
        hv, hf = case(E, st, h)
        sv, sf = case(E, st, self.spec)
        T0, T = self.T0, st.ghost['fdt']
        q = self.q
        m = list(fields(E, st, E.load_ref(st, self.pref)).values())[0]
        same_other = z3.Implies(self.other != self.key, z3.And(z3.Select(m.has, self.other) == z3.Select(self.map0.has, self.other),
                                                               z3.Implies(z3.Select(m.has, self.other), z3.Select(m.val, self.other) == z3.Select(self.map0.val, self.other))))
        E.prove(st, same_other, 'no other pipe is touched')
        if hv == 'Error':
            self.covered['Error'] = True
            failed = any(e[0] in ('pipe', 'mkstemp', 'open') and as_int(e[2]) == -1 for e in st.trace) or any(e[0] == 'remove_file' for e in st.trace)
            bad = z3.And(z3.BoolVal(sv == 'PipeRead'), z3.Not(fd_ok(self.from_fd)))
            E.prove(st, z3.Or(z3.BoolVal(failed), bad), 'an error only if a call failed')
            return
        st.assume(True)
        unchanged = z3.Select(T, q) == z3.Select(T0, q)
        mine = ()
        if sv == 'Inherit':
            E.prove(st, z3.BoolVal(hv == 'Inherit'), 'Inherit: kind of handler')
        elif sv == 'Close':
            E.prove(st, z3.And(z3.BoolVal(hv == 'Close'), hf.get('fd', z3.IntVal(-5)) == self.fd), 'Close: closes the descriptor named')
        elif sv in ('Null', 'File'):
            E.prove(st, z3.BoolVal(hv == 'UnmanagedFile'), f'{sv}: kind of handler')
            if hv == 'UnmanagedFile':
                path = z3.StringVal('/dev/null') if sv == 'Null' else sf['path']
                E.prove(st, z3.And(hf['fd'] == self.fd, val(E, st, hf['path']) == path), f'{sv}: descriptor and path')
                fl = E.pack(st, sf['flags'], Ty('adt', 'spec::OpenFlag'))
                E.prove(st, hf['oflags'] == oflags(E, fl, self.fd), f'{sv}: opened as documented')
                if sv == 'File':
                    E.prove(st, hf['mode'] == sf['mode'], 'File: permissions as given')
        elif sv == 'Dup':
            E.prove(st, z3.BoolVal(hv == 'Dup'), 'Dup: kind of handler')
            if hv == 'Dup':
                E.prove(st, z3.And(hf['fd'] == self.fd, hf['dup_fd'] == sf['fd']), 'Dup: of the descriptor given')
        elif sv == 'Capture':
            mode, _ = case(E, st, sf['mode'])
            sv = mode
            want = {'TempFile': 'UnlinkedFile', 'Memory': 'CaptureMemory'}[mode]
            E.prove(st, z3.BoolVal(hv == want), f'{mode}: kind of handler')
            if hv == want:
                E.prove(st, z3.And(hf['fd'] == self.fd, eqv(E, st, hf['encoding'], sf['encoding']), hf['attached'] == sf['attached']),
                        f'{mode}: descriptor, encoding and attachment as given')
                if mode == 'TempFile':
                    op = st.ghost.get('opened', ())
                    E.prove(st, z3.BoolVal(len(op) == 1), 'TempFile: one file made')
                    if len(op) == 1:
                        (a, fd, d) = op[0]
                        rm = [e for e in st.trace if e[0] == 'remove_file']
                        E.prove(st, z3.And(hf['file_fd'] == fd, z3.Select(T, fd) == d), 'TempFile: the file made, open')
                        E.prove(st, z3.And(z3.BoolVal(len(rm) == 1), rm[0][1][0] == a[1]) if rm else z3.BoolVal(False), 'TempFile: exactly its name is removed')
                        mine = (fd,)
                else:
                    ps = st.ghost.get('pipes', ())
                    E.prove(st, z3.BoolVal(len(ps) == 1), 'Memory: one pipe made')
                    if len(ps) == 1:
                        r, dr, w, dw = ps[0]
                        E.prove(st, z3.And(hf['read_fd'] == r, hf['write_fd'] == w, z3.Select(T, r) == dr, z3.Select(T, w) == dw, r != w),
                                'Memory: the ends of the pipe made, open')
                        mine = (r, w)
                    E.prove(st, hf['buf'].length() == 0, 'Memory: nothing captured yet')
        else:
            have = z3.Select(self.map0.has, self.key)
            E.prove(st, z3.BoolVal(hv == sv), f'{sv}: kind of handler')
            if hv != sv:
                return
            mykey, otherkey = ('pipe_write_fd', 'read') if sv == 'PipeWrite' else ('pipe_read_fd', 'write')
            r1, w1 = self.ends(E, m, self.key)
            mine0, rest0 = (self.w0, self.r0) if sv == 'PipeWrite' else (self.r0, self.w0)
            mine1, rest1 = (w1, r1) if sv == 'PipeWrite' else (r1, w1)
            some, get = self.os.recognizer(1), self.os.accessor(1, 0)
            E.prove(st, hf['fd'] == self.fd, f'{sv}: descriptor')
            E.prove(st, z3.Select(m.has, self.key), f'{sv}: the pipe is recorded')
            E.prove(st, z3.Not(some(mine1)), f'{sv}: the end handed out is no longer kept')
            E.prove(st, z3.Implies(have, z3.And(hf[mykey] == get(mine0), rest1 == rest0)), f'{sv}: second end comes from the pipe made for the first')
            ps = st.ghost.get('pipes', ())
            E.prove(st, z3.Implies(have, z3.BoolVal(len(ps) == 0)), f'{sv}: no second pipe')
            if not E.feasible(st, z3.Not(have)):
                self.covered[sv + ' second'] = True
            else:
                self.covered[sv + ' first'] = True
                E.prove(st, z3.Implies(z3.Not(have), z3.BoolVal(len(ps) == 1)), f'{sv}: one pipe made')
                if len(ps) == 1:
                    r, dr, w, dw = ps[0]
                    a, da, b, db = (w, dw, r, dr) if sv == 'PipeWrite' else (r, dr, w, dw)
                    E.prove(st, z3.Implies(z3.Not(have), z3.And(hf[mykey] == a, some(rest1), get(rest1) == b, z3.Select(T, a) == da, z3.Select(T, b) == db)),
                            f'{sv}: this end is handed out and the other kept')
                    mine = (r, w)
            E.prove(st, z3.Implies(z3.And(*[q != x for x in mine]), unchanged) if mine else unchanged, f'{sv}: no other descriptor changes')
            return
        self.covered[sv] = True
        E.prove(st, z3.Implies(z3.And(*[q != x for x in mine]), unchanged) if mine else unchanged, f'{sv}: no other descriptor changes')


def dict_val_ty(m):
    return m.vty


CONTRACTS = [MakeHandler]
