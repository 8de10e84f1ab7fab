"""The encoded form of results and messages: what the serialisers of the agent's types hand to serde, in what order and under what names.
The serialisers are generated by serde's derive from the attributes in the source; what is verified is the code it generated."""
import z3
from ..contract import *
from ..contract import Contract, LostAnchor, case, fields, eqv
from ..engine import *
from ..std import variant, val, simp, unit

OPT = 'the value under each name is encoded by the serialiser of its own type, as under its own contract or as serde documents for the types of the standard library'


def text(E, st, v):
    v = val(E, st, v)
    return simp(v)


class Encodes(Contract):
    """every value is handed to the encoder exactly once, unchanged, under its documented name; an error of the encoder is passed on"""
    TYPE = None
    FIELDS = ()              # of a struct
    VARIANTS = None          # of an enum: (name in the source, encoded name, fields or None for a plain name)
    TAG = None
    assumes = [OPT]
    budget = 120

    def find(self, E):
        c = E.methods.get((self.TYPE, 'Serialize', 'serialize'))
        if not c:
            raise LostAnchor(f'{self.TYPE} as Serialize')
        p = min((x[0] for x in c), key=len)
        self.target = p
        return E.load(p)

    def overrides(self, E):
        def outcome(E, st, c, what, good):
            s2 = st.copy()
            s2.ghost['failed'] = True
            return [(st, Agg(c.dty, [good], 0)), (s2, Agg(c.dty, [PyV('encode_error')], 1))]

        def begin(kind):
            def f(E, st, c):
                g = st.ghost
                E.prove(st, z3.BoolVal(g['phase'] == 0 and not g['failed']), 'is begun once')
                g['phase'] = 1
                g['kind'] = kind
                g['size'] = c.args[-1]
                return outcome(E, st, c, kind, PyV('encoder'))
            return f

        def put(E, st, c):
            g = st.ghost
            E.prove(st, z3.BoolVal(g['phase'] == 1 and not g['failed']), 'fields are given between the begin and the end')
            k, v = (c.args[1], c.args[2])
            v = val(E, st, v)
            if isinstance(v, Agg) and v.ty is not None and '__SerializeWith' in str(v.ty):
                # `serialize_with`: what its own serialiser hands on
                ps = [p for p in E.by_path if p.startswith(self.target + '::<impl') and p.endswith('::serialize')]
                if len(ps) != 1:
                    raise Unsupported('more than one wrapper of a field')
                was = dict(g)
                g['inner'] = None
                outs = E.run(E.load(ps[0]), [E.ref_to(st, v, v.ty), PyV('serializer')], st.copy())
                got = {str(s.ghost['inner']) for s, _ in outs}
                v = outs[0][0].ghost['inner']
                if len(got) != 1 or v is None:
                    raise Unsupported('a field encoded in another way')
                g.clear()
                g.update(was)
            g['out'] = g['out'] + ((text(E, st, k), v),)
            return outcome(E, st, c, 'field', unit())

        def skip(E, st, c):
            return outcome(E, st, c, 'skip', unit())

        def end(E, st, c):
            g = st.ghost
            E.prove(st, z3.BoolVal(g['phase'] == 1 and not g['failed']), 'is ended once')
            g['phase'] = 2
            return outcome(E, st, c, 'end', PyV('encoded'))

        def name(E, st, c):
            g = st.ghost
            E.prove(st, z3.BoolVal(g['phase'] == 0), 'is encoded once')
            g['phase'] = 2
            g['kind'] = 'name'
            g['out'] = g['out'] + ((text(E, st, c.args[-1]), None),)
            return outcome(E, st, c, 'name', PyV('encoded'))
        def as_bytes(E, st, c):
            st.ghost['inner'] = ('bytes', val(E, st, c.args[0]))
            return Agg(c.dty, [PyV('encoded')], 0)
        d = {'serde_bytes::serialize': as_bytes}
        for t in ('Serializer', '_serde::Serializer', '__private::Serializer'):
            d[t + '::serialize_struct'] = begin('struct')
            d[t + '::serialize_unit_variant'] = name
            d[t + '::serialize_str'] = name
        for t in ('SerializeStruct', 'SerializeMap'):
            d[t + '::serialize_field'] = d[t + '::serialize_entry'] = put
            d[t + '::skip_field'] = skip
            d[t + '::end'] = end
        return d

    def setup(self, E, st, f):
        from ..tys import parse_ty
        self.ty = f.locals[f.args[0]].args[0] if f.locals[f.args[0]].args else None
        self.v = E.fresh(st, self.ty, 'value')
        g = st.ghost
        g.update(phase=0, failed=False, kind=None, size=None, out=())
        return [E.ref_to(st, self.v, self.ty), PyV('serializer')]

    def post(self, E, st, ret):
        g = st.ghost
        bad = variant(E, st, ret)[2] == 1
        E.prove(st, z3.BoolVal(bad == g['failed']), 'fails exactly if the encoder fails')
        if bad:
            return
        E.prove(st, z3.BoolVal(g['phase'] == 2), 'is complete')
        want = []
        if self.VARIANTS is None:
            a = val(E, st, self.v)
            a = a if isinstance(a, Agg) else E.explode(st, a)
            fs = a.fields
            names = [n for n, _ in E.db.info(self.ty).fields]
            want = [(n, fs[names.index(n)] if n in names else None, n in names) for n in self.FIELDS]
            extra = [n for n in names if n not in self.FIELDS]
            if extra:
                raise Unsupported(f'fields {extra}, whose form the contract does not know')
            self.covered['struct'] = True
        else:
            _, a, vi, fs = variant(E, st, self.v)
            vr = E.db.info(self.ty).variants[vi]
            vn, vfs = vr[0], vr[2]
            spec = {x[0]: x for x in self.VARIANTS}.get(vn)
            if spec is None:
                raise Unsupported(f'variant {vn}, whose form the contract does not know')
            self.covered[vn] = True
            if spec[2] is None:
                out = g['out']
                E.prove(st, z3.BoolVal(len(out) == 1 and g['kind'] == 'name'), 'is encoded as a name')
                if len(out) == 1:
                    E.prove(st, out[0][0] == z3.StringVal(spec[1]), 'has its documented name')
                return
            names = [n for n, _ in vfs]
            want = [(self.TAG, z3.StringVal(spec[1]), True)] + [(n, fs[names.index(n)] if n in names else None, n in names) for n in spec[2]]
        E.prove(st, z3.BoolVal(g['kind'] == 'struct'), 'is encoded as a struct')
        out = dict()
        for k, v in g['out']:
            ks = k.as_string() if z3.is_string_value(k) else None
            if ks is None:
                raise Unsupported('a computed name')
            E.prove(st, z3.BoolVal(ks not in out), 'no name occurs twice')
            out[ks] = v
        for n, v, known in want:
            E.prove(st, z3.BoolVal(n in out), f'{n} is encoded')
            if n in out:
                if not known:
                    raise Unsupported(f'{n} is not a field')
                if isinstance(v, VecV) and str(v.ety) == 'u8':
                    E.prove(st, z3.BoolVal(isinstance(out[n], tuple)), f'{n} is encoded as bytes')
                E.prove(st, self.same(E, st, out[n], v), f'{n} has its own value')
        for n in out:
            E.prove(st, z3.BoolVal(n in [w[0] for w in want]), f'nothing but the documented names is encoded')

    def same(self, E, st, got, want):
        if isinstance(got, tuple) and got[0] == 'bytes':
            got = got[1]
            if not isinstance(got, VecV):
                raise Unsupported('bytes of something else')
        return eqv(E, st, got, want)


def struct(ty, *names):
    n = 'Enc_' + ty.replace('::', '_')
    C = type(n, (Encodes,), {'TYPE': ty, 'title': f'{ty} is encoded as documented: every value once, unchanged, under its name', 'target': f'<{ty} as Serialize>::serialize', 'FIELDS': names, 'covers': ('struct',), '__doc__': Encodes.__doc__, '__module__': __name__})
    globals()[n] = C
    return C


def enum(ty, tag, *variants):
    n = 'Enc_' + ty.replace('::', '_')
    C = type(n, (Encodes,), {'TYPE': ty, 'title': f'{ty} is encoded as documented: every value once, unchanged, under its name', 'target': f'<{ty} as Serialize>::serialize', 'TAG': tag, 'VARIANTS': variants, 'covers': tuple(v[0] for v in variants), '__doc__': Encodes.__doc__, '__module__': __name__})
    globals()[n] = C
    return C


CONTRACTS = [
    struct('res::ResourceUsage', 'utime', 'stime', 'maxrss', 'minflt', 'majflt', 'nswap', 'inblock', 'oublock', 'nvcsw', 'nivcsw'),
    enum('res::FdRes', 'type', ('Error', 'error', ()), ('File', 'file', ('path',)), ('Detached', 'detached', ('length', 'encoding')),
         ('Text', 'text', ('text', 'encoding')), ('Data', 'data', ('data', 'encoding'))),
    struct('res::Status', 'status', 'exit_code', 'signum', 'signal', 'core_dump'),
    struct('res::Times', 'start', 'now', 'stop', 'elapsed'),
    struct('res::ProcRes', 'state', 'errors', 'pid', 'proc_stat', 'proc_statm', 'times', 'status', 'rusage', 'fds'),
    enum('state::State', None, ('Error', 'error', None), ('Running', 'running', None), ('Terminated', 'terminated', None)),
    enum('shutdown::State', None, ('Active', 'active', None), ('Idling', 'idling', None), ('Done', 'done', None)),
    struct('procinfo::ProcessInfo', 'pid', 'ppid', 'uid', 'euid', 'username', 'gid', 'egid', 'groupname', 'hostname'),
    struct('procinfo::ProcStat', *'''pid comm state ppid pgrp session tty_nr tpgid flags minflt cminflt majflt cmajflt utime stime cutime cstime priority nice num_threads starttime
           vsize rss rsslim signal blocked sigignore sigcatch wchan exit_signal processor rt_priority policy delayacct_blkio_ticks guest_time cguest_time exit_code'''.split()),
    struct('procinfo::ProcStatm', 'size', 'resident', 'shared', 'text', 'data'),
    struct('proto::ConnectionInfo', 'conn_id', 'group_id', 'restricted_exe'),
    enum('proto::OutgoingMessage', 'type', ('RequestError', 'RequestError', ('msg', 'err')), ('ProcUnknown', 'ProcUnknown', ('proc_id',)),
         ('Register', 'Register', ('conn', 'proc', 'proc_ids', 'access_token', 'shutdown_state')), ('ProcidList', 'ProcidList', ('proc_ids',)),
         ('ProcResult', 'ProcResult', ('proc_id', 'res')), ('ProcFdData', 'ProcFdData', ('proc_id', 'fd', 'start', 'stop', 'encoding', 'data')),
         ('ProcDelete', 'ProcDelete', ('proc_id',)), ('ShutDown', 'ShutDown', ('shutdown_state',))),
    enum('proto::IncomingMessage', 'type', ('Registered', 'Registered', ()), ('ProcStartRequest', 'ProcStartRequest', ('specs',)),
         ('ProcidListRequest', 'ProcidListRequest', ()), ('ProcResultRequest', 'ProcResultRequest', ('proc_id',)),
         ('ProcSignalRequest', 'ProcSignalRequest', ('proc_id', 'signum')), ('ProcFdDataRequest', 'ProcFdDataRequest', ('proc_id', 'fd', 'start', 'stop')),
         ('ProcDeleteRequest', 'ProcDeleteRequest', ('proc_id',))),
    enum('spec::CaptureEncoding', None, ('Utf8', 'utf-8', None)),
]
