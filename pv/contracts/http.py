"""The HTTP service: from a connection to the responses to its requests."""
from ..contract import *
from ..std import *
from .procs import *
from .signals import SIGNALS
from .validate import OK, NUM
from .waits import result_override
from .requests import RESULT

STATUS = Ty('adt', 'StatusCode')
METHOD = Ty('adt', 'Method')
INNER = Ty('adt', 'Inner')
INPUT = Ty('adt', 'spec::Input')
BYTES = parse_ty('std::vec::Vec<u8>')
HDR = 'application/json'
ID, FD, SIG = z3.Strings('path_id path_fd path_signum')
PARAM = {'id': ID, 'fd': FD, 'signum': SIG}
# the documented paths
PATHS = {'procs': ('procs',), 'proc': ('procs', ID), 'signal': ('procs', ID, 'signals', SIG), 'output': ('procs', ID, 'output', FD, 'data'), 'other': None}
SIGOK = z3.Function('signum_ok', z3.StringSort(), z3.BoolSort())
SIGNUM = z3.Function('signum_of', z3.StringSort(), z3.IntSort())


def sv(x):
    return z3.StringVal(x) if isinstance(x, str) else x


class Http(Base):
    """run_http: listens on the loopback interface at the given port and serves every connection with a service that answers every request: each documented
    path and method performs exactly its operation, with the documented status, JSON shape or data and content type; a path that is not documented
    gives 404, a documented path with another method 405, and neither they nor a refused request change anything"""
    target = 'http::run_http'
    budget = 600
    covers = ('list', 'get', 'get unknown', 'start', 'start failed', 'start malformed', 'delete', 'delete refused', 'delete unknown', 'signal', 'signal refused', 'signal malformed',
              'signal unknown', 'output', 'output text', 'output none', 'output refused', 'output malformed', 'output unknown', 'no path', 'no method', 'accept failed')
    assumes = ASSUMES + [
        'callees keep their contracts: start_procs, Proc::to_result, SharedProcs::to_result, send_signal, get_fd_data, remove_if_not_running, parse_fd, parse_signum',
        'matchit gives the value of the one route whose literal segments equal those of the path, with its nonempty parameter segments by name, and otherwise fails',
        'serde_json: to_value and to_string of results, strings and values succeed and render their argument; from_slice decodes the body',
        'hyper serves a connection by calling the service with each of its requests and sending the response it gives; http builds a response of a valid status and headers']

    # ---------------------------------------------------------------- models
    def overrides(self, E):
        d = super().overrides(E)
        json = lambda kind, **a: PyV('json', jkind=kind, **a)

        # --- JSON values
        def jmap(E, st, c):
            return PyV('jmap', items=())

        def jinsert(E, st, c):
            ref, m = target(E, st, c.args[0])
            k = val(E, st, c.args[1])
            v = c.args[2]
            if any(not z3.is_string_value(simp(x)) and not z3.is_string_value(simp(k)) and not simp(x).eq(simp(k)) for x, _ in m.a['items']):
                raise Unsupported('JSON keys that may coincide')
            items = tuple((x, y) for x, y in m.a['items'] if not simp(x).eq(simp(k))) + ((k, v),)
            E.store_addr(st, ref.root, ref.path, PyV('jmap', items=items))
            return Agg(c.dty, [], 0)

        def to_value(E, st, c):
            ref, v = target(E, st, c.args[0])
            return Agg(c.dty, [self.tree(E, st, v)], 0)

        def to_string(E, st, c):
            v = val(E, st, c.args[0])
            t = E.fresh_const(z3.StringSort(), 'json_text')
            event(E, st, 'to_string', [self.tree(E, st, v)], t)
            return Agg(c.dty, [t], 0)
        for n in ('serde_json::Map::new', 'Map::new', 'serde_json::map::Map::new'):
            d[n] = jmap
        for n in ('serde_json::Map::insert', 'Map::insert', 'serde_json::map::Map::insert'):
            d[n] = jinsert
        d['serde_json::to_value'] = d['to_value'] = d['value::to_value'] = to_value
        d['serde_json::to_string'] = d['to_string'] = d['ser::to_string'] = to_string

        def from_slice(E, st, c):
            v = val(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'parses'))
            r = E.fresh(st, c.dty.args[0 if ok else 1], 'parsed')
            event(E, st, 'from_slice', [(E.vec_arr(st, v), v.length()), str(c.dty.args[0]), ok], r)
            return Agg(c.dty, [r], 0 if ok else 1)
        for n in ('serde_json::from_slice', 'from_slice', 'de::from_slice'):
            d[n] = from_slice

        # --- the request
        def parts(E, st):
            q = self.req
            return PyV('parts')

        def request(name):
            def f(E, st, c):
                v = val(E, st, c.args[0])
                if not (isinstance(v, PyV) and v.kind == 'request'):
                    raise Unsupported(f'{name} of another request')
                return self.request_part(E, st, name, c)
            return f
        for n in ('into_parts', 'method', 'uri', 'headers', 'into_body', 'body'):
            d['Request::' + n] = d['http::Request::' + n] = request(n)

        def path(E, st, c):
            v = val(E, st, c.args[0])
            if not (isinstance(v, PyV) and v.kind == 'uri'):
                raise Unsupported('path of another uri')
            return E.str_ref(st, self.path)
        d['Uri::path'] = d['http::Uri::path'] = path

        def hget(E, st, c):
            v, k = val(E, st, c.args[0]), val(E, st, c.args[1])
            if isinstance(k, PyV) and k.kind == 'hname':
                k = z3.StringVal(k.a['name'])
            if not (isinstance(v, PyV) and v.kind == 'headers') or not (z3.is_string_value(simp(k)) and simp(k).as_string().lower() == 'content-type'):
                raise Unsupported('another header')
            if E.decide(st, self.has_ct):
                return Agg(c.dty, [E.ref_to(st, PyV('hvalue', s=self.ct), None)], 1)
            return Agg(c.dty, [], 0)
        for n in ('HeaderMap::get', 'http::HeaderMap::get'):
            d[n] = hget

        def hcmp(neg):
            def f(E, st, c):
                a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
                a, b = (x.a['s'] if isinstance(x, PyV) and x.kind == 'hvalue' else x for x in (a, b))
                return z3.Not(a == b) if neg else a == b
            return f
        for k, n in (('eq', False), ('ne', True)):
            for s in ('HeaderValue', 'http::HeaderValue', '&HeaderValue', '&http::HeaderValue'):
                d[f'{s}::{k}'] = hcmp(n)
        d['PartialEq::ne'], d['PartialEq::eq'] = self.peq(E, True), self.peq(E, False)
        d['BodyExt::collect'] = lambda E, st, c: PyV('future', name='collect', args=tuple(c.args), dty=c.dty)

        def bytes_of(E, st, c):
            v = val(E, st, c.args[0])
            if isinstance(v, PyV) and v.kind == 'collected':
                return E.unpack(st, self.body, BYTES)
            raise Unsupported('bytes of something else')
        d['Collected::to_bytes'] = d['http_body_util::Collected::to_bytes'] = bytes_of
        d['Bytes::len'] = d['bytes::Bytes::len'] = lambda E, st, c: val(E, st, c.args[0]).length()
        d['Bytes::is_empty'] = d['bytes::Bytes::is_empty'] = lambda E, st, c: val(E, st, c.args[0]).length() == 0

        # --- routing
        def rnew(E, st, c):
            if self.routes is not None:
                raise Unsupported('several routers')
            self.routes = []
            return PyV('routes', handle=True)

        def rinsert(E, st, c):
            k = simp(val(E, st, c.args[1]))
            if self.serving:
                raise Unsupported('routes added while serving')
            if not z3.is_string_value(k):
                raise Unsupported('a route that is not a constant')
            segs = tuple(k.as_string().lstrip('/').split('/'))
            shape = [tuple(':' if s.startswith(':') else s for s in x) for x, _ in self.routes]
            if tuple(':' if s.startswith(':') else s for s in segs) in shape or not k.as_string().startswith('/') or '*' in k.as_string() or '{' in k.as_string():
                return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'conflict')], 1)
            self.routes.append((segs, c.args[2]))
            return Agg(c.dty, [unit()], 0)
        d['matchit::Router::new'], d['matchit::Router::insert'], d['matchit::Router::at'] = rnew, rinsert, self.at

        def pget(E, st, c):
            v, k = val(E, st, c.args[0]), simp(val(E, st, c.args[1]))
            if not (isinstance(v, PyV) and v.kind == 'params' and z3.is_string_value(k)):
                raise Unsupported('another parameter')
            for n, x in v.a['items']:
                if n == k.as_string():
                    return Agg(c.dty, [E.str_ref(st, sv(x))], 1)
            return Agg(c.dty, [], 0)
        d['matchit::Params::get'] = d['Params::get'] = pget

        # --- the response
        d['http::Response::builder'] = d['Response::builder'] = lambda E, st, c: PyV('builder', status=z3.IntVal(200), headers=())

        def rstatus(E, st, c):
            b, x = val(E, st, c.args[0]), val(E, st, c.args[1])
            if not z3.is_expr(x):
                x = list(fields(E, st, x).values())[0]
            return PyV('builder', status=x, headers=b.a['headers'])

        def rheader(E, st, c):
            b = val(E, st, c.args[0])
            n, v = val(E, st, c.args[1]), val(E, st, c.args[2])
            n = z3.StringVal(n.a['name']) if isinstance(n, PyV) else n
            v = v.a['s'] if isinstance(v, PyV) else v
            if not z3.is_string_value(simp(n)):
                raise Unsupported('a header whose name is not a constant')
            return PyV('builder', status=b.a['status'], headers=b.a['headers'] + ((simp(n).as_string().lower(), v),))

        def rbody(E, st, c):
            b = val(E, st, c.args[0])
            E.require_nopanic(st, z3.And(b.a['status'] >= 100, b.a['status'] < 1000), 'a response of an invalid status')
            return Agg(c.dty, [PyV('response', status=b.a['status'], headers=b.a['headers'], body=val(E, st, c.args[1]))], 0)

        def rnew2(E, st, c):
            return PyV('response', status=z3.IntVal(200), headers=(), body=val(E, st, c.args[0]))
        for p in ('Builder::', 'http::response::Builder::', 'response::Builder::'):
            d[p + 'status'], d[p + 'header'], d[p + 'body'] = rstatus, rheader, rbody
        for n in ('HeaderValue::from_static', 'http::HeaderValue::from_static'):
            d[n] = lambda E, st, c: PyV('hvalue', s=val(E, st, c.args[0]))

        def full(E, st, c):
            v = val(E, st, c.args[0])
            return PyV('full', v=v)
        d['Full::new'] = d['http_body_util::Full::new'] = d['Full::from'] = d['http_body_util::Full::from'] = full

        def conv(name):
            old = E.intrinsics.get(name)

            def f(E, st, c):
                if c.dty is not None and c.dty.kind == 'adt' and c.dty.last == 'Full':
                    return full(E, st, c)
                if c.dty is not None and c.dty.kind == 'adt' and c.dty.last == 'SocketAddr':
                    return PyV('addr', v=val(E, st, c.args[0]))
                return old(E, st, c)
            return f
        for n in ('From::from', 'Into::into'):
            d[n] = conv(n)

        # texts of errors are not specified
        def text(E, st, c):
            v = val(E, st, c.args[0]) if c.args else None
            if z3.is_expr(v) and z3.is_string(v):
                return v
            return E.fresh_const(z3.StringSort(), 'text')
        d['ToString::to_string'] = d['fmt::format'] = d['std::fmt::format'] = d['alloc::fmt::format'] = text

        # --- the service
        d['hyper::server::conn::http1::Builder::new'] = lambda E, st, c: PyV('http1')
        d['service::service_fn'] = d['hyper::service::service_fn'] = d['service_fn'] = lambda E, st, c: PyV('service', fn=c.args[0])
        d['http1::Builder::new'] = d['conn::http1::Builder::new'] = lambda E, st, c: PyV('http1')

        def serve(E, st, c):
            return PyV('future', name='serve', args=tuple(c.args[1:]), dty=c.dty)
        for n in ('http1::Builder::serve_connection', 'conn::http1::Builder::serve_connection', 'Builder::serve_connection'):
            d[n] = serve
        d['TcpListener::bind'] = lambda E, st, c: PyV('future', name='bind', args=tuple(c.args), dty=c.dty)
        d['TcpListener::accept'] = lambda E, st, c: PyV('future', name='accept', args=tuple(c.args), dty=c.dty)

        def spawn(E, st, c):
            st.ghost['served'] = z3.BoolVal(True)
            self.task(E, st, c.args[0])
            return PyV('future', name='join', args=(), dty=c.dty)
        d['task::spawn_local'] = d['tokio::task::spawn_local'] = spawn

        # --- operations
        def start(E, st, c):
            ok = E.decide(st, E.fresh_const(B, 'started'))
            m = val(E, st, c.args[0])
            ptr = list(fields(E, st, val(E, st, c.args[1])).values())[0].ptr
            event(E, st, 'start', [E.pack(st, m, fty(E, INPUT, 'specs')), ptr, ok], None)
            havoc_shared(E, st)
            return Agg(c.dty, [E.fresh(st, c.dty.args[0 if ok else 1], 'startr')], 0 if ok else 1)

        def which(ref):
            if isinstance(ref, RefV) and ref.root[0] == 'h':
                return ref.root[2]
            raise Unsupported('a process outside the set')

        def signal(E, st, c):
            ref, v = target(E, st, c.args[0])
            ok = E.decide(st, E.fresh_const(B, 'signalled'))
            event(E, st, 'signal', [which(ref), c.args[1], ok], None)
            return Agg(c.dty, [unit()], 0) if ok else Agg(c.dty, [E.fresh(st, c.dty.args[1], 'sigerr')], 1)

        def data(E, st, c):
            ref, v = target(E, st, c.args[0])
            r = E.fresh(st, c.dty, 'fddata')
            event(E, st, 'data', [which(ref), c.args[1], c.args[2], c.args[3]], r)
            return r

        def remove(E, st, c):
            ref, v = target(E, st, c.args[0])
            ptr = list(fields(E, st, v).values())[0].ptr
            id = val(E, st, c.args[1])
            has = z3.Select(self.map(E, st).has, id)
            ok = E.decide(st, z3.And(has, E.fresh_const(B, 'removed')))
            event(E, st, 'delete', [ptr, id, ok], None)
            et = c.dty.args[1]
            if ok:
                return Agg(c.dty, [E.fresh(st, c.dty.args[0], 'removed')], 0)
            e = Enum(E, et)
            t = e.mk('ProcRunning' if E.decide(st, has) else 'NoProcId', id)
            return Agg(c.dty, [E.unpack(st, t, et)], 1)

        def parse(E, st, c):
            s = val(E, st, c.args[0])
            if E.decide(st, OK(s)):
                n = NUM(s)
                st.assume(E.in_range(n, 'i32'))
                return Agg(c.dty, [n], 0)
            return Agg(c.dty, [E.fresh(st, c.dty.args[1], 'badfd')], 1)

        def parse_sig(E, st, c):
            s = val(E, st, c.args[0])
            if E.decide(st, SIGOK(s)):
                st.assume(E.in_range(SIGNUM(s), 'i32'))
                return Agg(c.dty, [SIGNUM(s)], 1)
            return Agg(c.dty, [], 0)

        def results(E, st, c):
            ptr = list(fields(E, st, val(E, st, c.args[0])).values())[0].ptr
            r = E.fresh(st, c.dty, 'results')
            event(E, st, 'results', [ptr, E.pack(st, r, c.dty), c.dty], r)
            return r
        d['start_procs'] = d['procs::start_procs'] = start
        d['Proc::send_signal'] = signal
        d['Proc::get_fd_data'] = data
        d['SharedProcs::remove_if_not_running'] = remove
        d['SharedProcs::to_result'] = results
        d['parse_fd'] = d['spec::parse_fd'] = parse
        d['parse_signum'] = d['sig::parse_signum'] = parse_sig
        d['Proc::to_result'] = result_override
        return d

    def peq(self, E, neg):
        t = E.intrinsics.get('PartialEq::ne' if neg else 'PartialEq::eq')

        def f(E, st, c):
            a, b = val(E, st, c.args[0]), val(E, st, c.args[1])
            if any(isinstance(x, PyV) and x.kind == 'hvalue' for x in (a, b)):
                a, b = (x.a['s'] if isinstance(x, PyV) and x.kind == 'hvalue' else x for x in (a, b))
                return z3.Not(a == b) if neg else a == b
            if t is None:
                raise Unsupported('comparison')
            return t(E, st, c)
        return f

    def at(self, E, st, c):
        p = val(E, st, c.args[1])
        if not simp(p).eq(simp(self.path)):
            raise Unsupported('routing of something other than the path')
        shape = self.segs
        out = []

        def err(s):
            return Agg(c.dty, [E.fresh(s, c.dty.args[1], 'nomatch')], 1)

        def ok(s, segs, v, items):
            mt = c.dty.args[0]
            return Agg(c.dty, [Agg(mt, [E.ref_to(s, v, None), PyV('params', items=tuple(items))])], 0)
        if shape is None:
            # a path that is none of the documented ones may match any other route
            docs = [tuple(':' if not isinstance(x, str) else x for x in q) for q in PATHS.values() if q]
            for segs, v in self.routes:
                if tuple(':' if x.startswith(':') else x for x in segs) not in docs:
                    s = st.copy()
                    out.append((s, ok(s, segs, v, [(x[1:], E.fresh_const(z3.StringSort(), x[1:])) for x in segs if x.startswith(':')])))
            out.append((st, err(st)))
            return out
        # a literal segment is preferred to a parameter
        cands = [(segs, v) for segs, v in self.routes if len(segs) == len(shape)]
        cands.sort(key=lambda x: [y.startswith(':') for y in x[0]])
        rest = st
        for segs, v in cands:
            conds = [sv(y) == x for x, y in zip(segs, shape) if not x.startswith(':')]
            cond = z3.simplify(z3.And(*[sv(x) == sv(y) for x, y in zip(segs, shape) if not x.startswith(':')]))
            if z3.is_false(cond):
                continue
            s = rest.copy()
            s.assume(cond)
            if E.feasible(s):
                out.append((s, ok(s, segs, v, [(x[1:], y) for x, y in zip(segs, shape) if x.startswith(':')])))
            rest = rest.copy()
            rest.assume(z3.Not(cond))
            if z3.is_true(cond) or not E.feasible(rest):
                return out
        out.append((rest, err(rest)))
        return out

    def request_part(self, E, st, name, c):
        if name == 'into_parts':
            pt, bt = c.dty.args
            vals = dict(method=self.method, uri=PyV('uri'), version=E.fresh(st, Ty('adt', 'Version'), 'version'), headers=PyV('headers'), extensions=PyV('extensions'))
            return Agg(c.dty, [Agg(pt, list(vals.values())), PyV('body')])
        v = dict(method=self.method, uri=PyV('uri'), headers=PyV('headers'), into_body=PyV('body'), body=PyV('body'))[name]
        return v if name == 'into_body' else E.ref_to(st, v, None)

    def tree(self, E, st, v):
        """a JSON value as ('obj', [(key, tree)]) or ('of', value rendered)"""
        v = val(E, st, v)
        if isinstance(v, PyV) and v.kind == 'json':
            return v
        if isinstance(v, PyV) and v.kind == 'variant':
            m = v.a['fields'][0]
            if v.a['name'] == 'Object' and m.kind == 'jmap':
                return PyV('json', jkind='obj', items=tuple((k, self.tree(E, st, x)) for k, x in m.a['items']))
        if isinstance(v, PyV) and v.kind == 'jmap':
            return PyV('json', jkind='obj', items=tuple((k, self.tree(E, st, x)) for k, x in v.a['items']))
        return PyV('json', jkind='of', v=v)

    # ---------------------------------------------------------------- running
    def setup(self, E, st, f):
        r = self.base_setup(E, st)
        self.port = z3.Int('port')
        st.assume(E.in_range(self.port, 'u16'))
        self.routes, self.serving = None, False
        st.ghost['bound'] = st.ghost['served'] = z3.BoolVal(False)
        st.ghost['accepted'] = z3.BoolVal(False)
        return [val(E, st, r), self.port]

    def loop_inv(self, L):
        return {'served': lambda st: z3.Implies(st.ghost['accepted'], st.ghost['served']), 'bound': lambda st: st.ghost['bound']}

    def on_await(self, E, st, fut, rty):
        n, a = fut.a['name'], fut.a['args']
        if n == 'bind':
            v = val(E, st, a[0])
            if not (isinstance(v, PyV) and v.kind == 'addr' and isinstance(v.a['v'], Agg) and len(v.a['v'].fields) == 2):
                raise Unsupported('an address of unknown making')
            ip, port = v.a['v'].fields
            ip = E.vec_arr(st, val(E, st, ip))
            E.prove(st, z3.And(port == self.port, *[z3.Select(ip, i) == k for i, k in enumerate((127, 0, 0, 1))]), 'listens at the port given, on the loopback interface only')
            E.prove(st, z3.Not(st.ghost['bound']), 'listens once')
            havoc_shared(E, st)
            ok = E.decide(st, E.fresh_const(B, 'bound'))
            if ok:
                st.ghost['bound'] = z3.BoolVal(True)
            v = E.fresh(st, rty.args[0 if ok else 1], 'bound')
            return Agg(rty, [v], 0 if ok else 1)
        if n == 'accept':
            E.prove(st, st.ghost['bound'], 'accepts once it listens')
            E.prove(st, z3.Implies(st.ghost['accepted'], st.ghost['served']), 'every connection accepted is served')
            havoc_shared(E, st)
            ok = E.decide(st, E.fresh_const(B, 'accepted'))
            st.ghost['accepted'] = z3.BoolVal(bool(ok))
            st.ghost['served'] = z3.BoolVal(False)
            if not ok:
                self.covered['accept failed'] = True
            v = E.fresh(st, rty.args[0 if ok else 1], 'accepted')
            return Agg(rty, [v], 0 if ok else 1)
        if n == 'collect':
            event(E, st, 'collect', [], None)
            havoc_shared(E, st)
            self.begin(E, st)
            if E.decide(st, self.readable):
                return Agg(rty, [PyV('collected')], 0)
            return Agg(rty, [E.fresh(st, rty.args[1], 'bodyerr')], 1)
        if n == 'serve':
            svc = [x for x in a if isinstance(val(E, st, x), PyV) and val(E, st, x).kind == 'service']
            if len(svc) != 1:
                raise Unsupported('serving without a service')
            self.serve(E, st, val(E, st, svc[0]).a['fn'])
            self.was_served = True
            return E.fresh(st, rty, 'connection_end')
        raise Unsupported('await of ' + n)

    def task(self, E, st, fut):
        """the spawned task, from now on or later"""
        s = st.copy()
        havoc_shared(E, s)
        v = fut
        while isinstance(v, Agg) and not isinstance(v, ClosV):
            v = val(E, s, v.fields[0])
        self.was_served, self.serving = False, True
        E.forked(s, lambda z: E.run_async(z, v))
        E.prove(st, z3.BoolVal(self.was_served), 'a connection is served')

    def begin(self, E, st):
        """the state the operation of the request starts from"""
        m0 = self.map(E, st)
        map_wf_at(E, st, m0, ID)
        map_wf_at(E, st, m0, self.p)
        nonempty_facts(E, st, m0)
        rptr = self.ptr_of(m0, ID)
        st.assume(z3.Implies(z3.Select(m0.has, ID), rptr >= 0))
        st.ghost['at_start'] = (m0, rptr, self.proc(E, st, rptr))

    def serve(self, E, st, fn):
        for name, segs in PATHS.items():
            s = st.copy()
            s.trace = ()
            self.kind, self.segs = name, segs
            if segs:
                parts = [z3.StringVal('/')]
                for i, x in enumerate(segs):
                    parts += ([z3.StringVal('/')] if i else []) + [sv(x)]
                self.path = simp(z3.Concat(*parts))
            else:
                self.path = z3.String('path')
            self.inner = E.fresh(s, INNER, 'method')
            self.method = Agg(METHOD, [self.inner])
            self.has_ct, self.ct = z3.Bool('has_content_type'), z3.String('content_type')
            self.readable = z3.Bool('body_readable')
            self.body = z3.Const('body', E.sort(BYTES))
            havoc_shared(E, s)
            self.begin(E, s)
            g = s.ghost
            for k in ('n_start', 'n_notrun', 'n_delete', 'n_shut', 'n_all', 'n_set', 'n_late'):
                g[k] = z3.IntVal(0)
            self.shut1 = g['shut']

            def go(z):
                r = []
                for z1, v in E.call_closure(z, fn, [PyV('request')], ref=E.ref_to(z, fn, None, True)):
                    while isinstance(v, Agg) and not isinstance(v, ClosV):
                        v = val(E, z1, v.fields[0])
                    r += E.run_async(z1, v) if isinstance(v, ClosV) else [(z1, v)]
                return r
            for z, v in E.forked(s, go):
                E.forked(z, lambda y: [(y, self.respond(E, y, v))])

    # ---------------------------------------------------------------- postcondition of a request
    def respond(self, E, st, ret):
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), n)
        M = Enum(E, INNER)
        mt = self.inner.term
        GET, POST, DELETE = (E.decide(st, M.is_(mt, n)) for n in ('Get', 'Post', 'Delete'))
        kind = self.kind
        what = f'{"GET" if GET else "POST" if POST else "DELETE" if DELETE else "other"} {kind}'
        _, _, vi, fs = variant(E, st, ret)
        P(vi == 0, f'{what}: is answered')
        if vi != 0:
            return
        rsp = val(E, st, fs[0])
        if not (isinstance(rsp, PyV) and rsp.kind == 'response'):
            raise Unsupported('a response of unknown making')
        status, body = rsp.a['status'], rsp.a['body']
        body = body.a['v'] if isinstance(body, PyV) and body.kind == 'full' else body
        cts = [v for n, v in rsp.a['headers'] if n == 'content-type']
        P(len(cts) == 1 and all(n in ('content-type',) for n, _ in rsp.a['headers']), f'{what}: one content type')
        if len(cts) != 1:
            return
        ct = cts[0]
        ops = [e for e in st.trace if e[0] in ('start', 'signal', 'data', 'delete', 'results')]
        names = [e[0] for e in ops]
        x = ops[0][1] if ops else None
        m0, rptr, pt = st.ghost['at_start']
        has = z3.Select(m0.has, ID)
        if names != ['start']:
            m = self.map(E, st)
            P(z3.Select(m.has, self.p) == z3.Select(m0.has, self.p), f'{what}: the set of processes is left alone')
            P(z3.Implies(z3.Select(m.has, self.p), self.ptr_of(m, self.p) == self.ptr_of(m0, self.p)), f'{what}: the processes are left in it')
            P(self.proc(E, st, rptr) == pt, f'{what}: the process is left alone')
            g = st.ghost
            P(z3.And(*[g[k] == 0 for k in ('n_all', 'n_set')]), f'{what}: nothing is announced')

        def rendered():
            ts = [e for e in st.trace if e[0] == 'to_string']
            for e in ts:
                if z3.is_expr(body) and body.eq(e[2]):
                    return e[1][0]
            return None

        def obj(t):
            """keys of a JSON object"""
            if t is None or t.a['jkind'] != 'obj':
                return None
            return {simp(k).as_string() if z3.is_string_value(simp(k)) else str(k): (k, v) for k, v in t.a['items']}

        def leaf(t, term, n, ty=None):
            P(t is not None and t.a['jkind'] == 'of', n)
            if t is not None and t.a['jkind'] == 'of':
                v = t.a['v']
                if ty is not None or isinstance(v, (Agg, Sym)):
                    v = E.pack(st, v, ty or v.ty)
                elif not z3.is_expr(v):
                    v = pack_any(E, st, v)
                P(v.sort() == term.sort() and v == term if v.sort() == term.sort() else False, n)

        def error(codes):
            P(z3.Or([status == c for c in codes]), f'{what}: status {" or ".join(map(str, codes))}')
            P(ct == z3.StringVal(HDR), f'{what}: content type of an error')
            o = obj(rendered())
            P(o is not None and set(o) == {'errors'}, f'{what}: an errors object')
            if o is None or set(o) != {'errors'}:
                return
            o = obj(o['errors'][1])
            P(o is not None and set(o) == {'status', 'detail'}, f'{what}: with status and detail')

        def success(fn=None):
            P(status == 200, f'{what}: success')
            P(ct == z3.StringVal(HDR), f'{what}: content type')
            o = obj(rendered())
            P(o is not None and set(o) == {'data'}, f'{what}: a data object')
            if o is None or set(o) != {'data'}:
                return
            o = obj(o['data'][1])
            P(o is not None, f'{what}: data is an object')
            if o is None:
                return
            if fn is None:
                P(not o, f'{what}: nothing in it')
            else:
                P(set(o) == {'procs'}, f'{what}: with procs')
                if set(o) == {'procs'}:
                    fn(o['procs'][1])

        def none():
            P(names == [], f'{what}: nothing is done')

        if kind == 'other':
            self.covered['no path'] = True
            none()
            return error([404])
        if (kind, 'GET' if GET else 'POST' if POST else 'DELETE' if DELETE else '') not in (
                ('procs', 'GET'), ('procs', 'POST'), ('proc', 'GET'), ('proc', 'DELETE'), ('signal', 'POST'), ('output', 'GET')):
            self.covered['no method'] = True
            none()
            return error([405])
        if kind == 'procs' and GET:
            self.covered['list'] = True
            P(names == ['results'], f'{what}: the results are read')
            if names == ['results']:
                P(x[0] == self.ptr, f'{what}: of these processes')
                success(lambda t: leaf(t, x[1], f'{what}: all results by id', x[2]))
        elif kind == 'procs':
            dec = [e for e in st.trace if e[0] == 'from_slice']
            n = E.sort(BYTES).accessor(0, 0)(self.body)
            read = z3.And(self.readable, self.has_ct, self.ct == z3.StringVal(HDR), n > 0)
            if not E.decide(st, read):
                self.covered['start malformed'] = True
                none()
                return error([400])
            P(len(dec) == 1, f'{what}: the body is parsed')
            if len(dec) != 1:
                return
            (arr, k), ty, ok = dec[0][1]
            i = z3.Int('i')
            P(z3.And(k == n, z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(E.sort(BYTES).accessor(0, 1)(self.body), i))), f'{what}: exactly the body')
            if not ok:
                self.covered['start malformed'] = True
                none()
                return error([400])
            P(names == ['start'], f'{what}: processes are started once')
            if names != ['start']:
                return
            t = E.pack(st, dec[0][2], INPUT)
            P(z3.And(x[0] == field(E, INPUT, t, 'specs'), x[1] == self.ptr), f'{what}: exactly those in the body')
            if x[2]:
                self.covered['start'] = True
                success()
            else:
                self.covered['start failed'] = True
                error([400])
        elif kind == 'proc' and GET:
            none()
            if E.decide(st, has):
                self.covered['get'] = True

                def procs(t):
                    o = obj(t)
                    P(o is not None and len(o) == 1, f'{what}: one process')
                    if o is not None and len(o) == 1:
                        k, v = list(o.values())[0]
                        P(k == ID, f'{what}: by its id')
                        leaf(v, z3.Function('result_of', E.sort(PROC), E.sort(RESULT))(pt), f'{what}: its current result')
                success(procs)
            else:
                self.covered['get unknown'] = True
                error([404])
        elif kind == 'proc':
            P(names == ['delete'], f'{what}: one removal')
            if names != ['delete']:
                return
            P(z3.And(x[0] == self.ptr, x[1] == ID), f'{what}: of exactly that process')
            if x[2]:
                self.covered['delete'] = True
                success()
            elif E.decide(st, has):
                self.covered['delete refused'] = True
                error([400])
            else:
                self.covered['delete unknown'] = True
                error([404])
        elif kind == 'signal':
            good, there = E.decide(st, SIGOK(SIG)), E.decide(st, has)
            if not good or not there:
                self.covered['signal malformed' if there else 'signal unknown'] = True
                none()
                return error([400] * (not good) + [404] * (not there))
            P(names == ['signal'], f'{what}: one signal')
            if names != ['signal']:
                return
            P(z3.And(x[0] == rptr, x[1] == SIGNUM(SIG)), f'{what}: exactly that one, to exactly that process')
            if x[2]:
                self.covered['signal'] = True
                success()
            else:
                self.covered['signal refused'] = True
                error([400])
        else:
            good, there = E.decide(st, OK(FD)), E.decide(st, has)
            if not good or not there:
                self.covered['output malformed' if there else 'output unknown'] = True
                none()
                return error([400] * (not good) + [404] * (not there))
            P(names == ['data'], f'{what}: the output is read once')
            if names != ['data']:
                return
            P(z3.And(x[0] == rptr, x[1] == NUM(FD)), f'{what}: of exactly that fd of exactly that process')
            s = E.pack(st, x[3], opt_ty(USIZE)) if isinstance(x[3], Agg) else x[3].term
            P(z3.And(x[2] == 0, z3.Not(is_some(s))), f'{what}: from the start to the end')
            _, _, ri, rfs = variant(E, st, ops[0][2])
            if ri == 1:
                self.covered['output refused'] = True
                return error([400])
            P(status == 200, f'{what}: success')
            _, _, oi, od = variant(E, st, rfs[0])
            if oi == 0:
                self.covered['output none'] = True
                P(isinstance(body, VecV), f'{what}: bytes')
                if isinstance(body, VecV):
                    P(body.length() == 0, f'{what}: nothing captured, nothing sent')
                return
            fd = fields(E, st, od[0])
            got = val(E, st, fd['data'])
            P(isinstance(body, VecV), f'{what}: bytes')
            if not isinstance(body, VecV):
                return
            i = z3.Int('i')
            P(z3.And(body.length() == got.length(), z3.Implies(z3.And(i >= 0, i < got.length()), z3.Select(E.vec_arr(st, body), i) == z3.Select(E.vec_arr(st, got), i))),
              f'{what}: exactly the bytes captured')
            enc = fd['encoding']
            _, _, ei, _ = variant(E, st, enc)
            self.covered['output text' if ei == 1 else 'output'] = True
            P(ct == z3.StringVal('text/plain; charset=utf-8' if ei == 1 else 'application/octet-stream'), f'{what}: content type of the data')

    def post(self, E, st, ret):
        P = lambda c, n: E.prove(st, c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)), n)
        _, _, vi, fs = variant(E, st, ret)
        P(vi == 1, 'ends only with an error of the listener')


CONTRACTS = [Http]
